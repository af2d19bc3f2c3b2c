"""P36: memory layout and recording of gradients do not change values"""
import torch

from mon import gens, inference, odes
from mon.common import case, Skip, solved
from mon.p35 import evaluate, make
from pyoptmat import chunktime, experiments, models, ode, optimize, solvers, utility

RULE = (
    "random calls with arguments in other memory layouts (views, strides, expanded, transposed), under other "
    "gradient modes, compared with plain arguments; a case counts if its (call, shapes, layouts) signature is new"
)


def relaid(ctx, x):
    """The same values in another layout, and a name of it"""
    k = ctx.pick("plain", "transposed", "strided", "offset", "flipped", "recorded", "derived", "expanded")
    if k == "transposed" and x.dim() > 1:
        i, j = ctx.int(0, x.dim() - 1), ctx.int(0, x.dim() - 1)
        return x.transpose(i, j).contiguous().transpose(i, j), k
    if k == "strided":
        buf = torch.full(x.shape + (3,), float("nan"), dtype=x.dtype) if x.is_floating_point() else \
            torch.zeros(x.shape + (3,), dtype=x.dtype)
        buf[..., 1] = x
        return buf[..., 1], k
    if k == "offset" and x.dim():
        buf = torch.zeros((x.shape[0] + 2,) + x.shape[1:], dtype=x.dtype)
        buf[1:-1] = x
        return buf[1:-1], k
    if k == "flipped" and x.dim():
        return torch.stack([x, x], -1)[..., ctx.int(0, 1)], k
    if k == "recorded" and x.is_floating_point():
        return x.clone().requires_grad_(True), k
    if k == "derived" and x.is_floating_point():
        return x.clone().requires_grad_(True) * 1.0, k
    if k == "expanded" and x.dim() and all(bool((x[i] == x[0]).all()) for i in range(x.shape[0])):
        return x[:1].expand(x.shape), k
    return x.clone(), "plain"


def uniform(ctx, x, p=0.3):
    """Sometimes the same for all members, so that it can be expanded"""
    return x[:1].expand(x.shape).clone() if x.dim() and ctx.flip(p) else x


def compare(ctx, what, f, args, rtol=1e-9, scale=None):
    """f on plain arguments and on others"""
    ref = [v.detach() for v in f(*[a.clone() for a in args])]
    for _ in range(2):
        new, names = zip(*[relaid(ctx, a) for a in args]) if args else ((), ())
        keep = [a.detach().clone() for a in new]
        mode = ctx.pick("grad", "no_grad", "grad")
        with torch.set_grad_enabled(mode == "grad"):
            got = f(*new)
        ctx.sig(what, names, mode, [tuple(a.shape) for a in args])
        for i, (x, y) in enumerate(zip(got, ref)):
            s = float(y.abs().max()) if y.numel() else 0.0
            ctx.close(f"{what}, value {i}, with {', '.join(names)}", x.detach(), y, rtol=rtol,
                      atol=1e-12 + rtol * (scale or s) * 0.1)
        for a, b, nm in zip(new, keep, names):
            ctx.same(f"argument ({nm})", a.detach(), b)
        ctx.saw("other layouts", sum(n != "plain" for n in names))
    ctx.describe(what=what, shapes=[list(a.shape) for a in args])


@case("P36", 900, 20000)
def components(ctx):
    """Materials and their parts"""
    nb = ctx.int(1, 4)
    kind = ctx.cycle("temperature", "model", "flow", "iso", "kin", "damage", "model", "flow")
    obj, what, n, _ = make(ctx, kind, nb)
    args = [uniform(ctx, a) for a in gens.point(ctx, gens.lead(ctx, nb), n)]
    compare(ctx, f"{kind} {what}", lambda *a: evaluate(obj, kind, *a), args)


@case("P36", 500, 10000)
def parameters(ctx):
    """Parameters of materials and their parts which are views of larger tables"""
    nb = ctx.int(1, 4)
    kind = ctx.cycle("temperature", "model", "temperature", "flow", "kin", "iso", "damage")
    obj, what, n, _ = make(ctx, kind, nb)
    args = [a.clone() for a in gens.point(ctx, gens.lead(ctx, nb), n)]
    ref = [v.detach() for v in evaluate(obj, kind, *args)]
    done, names = {}, []
    for m in obj.modules():
        for store in (m._parameters, m.__dict__):
            for name, p in list(store.items()):
                if not torch.is_tensor(p):
                    continue
                if id(p) not in done:
                    new, k = relaid(ctx, p.detach())
                    names.append(k)
                    done[id(p)] = (torch.nn.Parameter(new.detach()) if store is m._parameters else new, p)
                store[name] = done[id(p)][0]
    ctx.describe(kind=kind, what=what, layouts=names)
    ctx.sig(kind, what, tuple(names))
    for i, (x, y) in enumerate(zip(evaluate(obj, kind, *args), ref)):
        ctx.close(f"{kind} {what}, value {i}, with other layouts of the parameters", x.detach(), y, rtol=1e-9,
                  atol=1e-12 + 1e-10 * (float(y.abs().max()) if y.numel() else 0.0))
    ctx.saw("parameters in other layouts", sum(k != "plain" for k in names))


@case("P36", 120, 3000)
def simulations(ctx):
    """Simulated tests"""
    nb, nt = ctx.int(1, 4), ctx.pick(2, 5, 9)
    g = gens.Gen(ctx, batch=nb)
    obj, ref = g.model(flow=g.isokin() if ctx.flip(0.6) else None, dkind=ctx.pick("hl", "const", "none"))
    t, e, T = gens.history(ctx, nt, nb, emax=0.01)
    if ctx.flip(0.3):
        t, e = t[:, :1].expand(nt, nb).clone(), e[:, :1].expand(nt, nb).clone()
    intg = models.ModelIntegrator(obj, use_adjoint=ctx.flip(), block_size=ctx.pick(1, 3, nt + 4), rtol=1e-15,
                                  atol=1e-8, miter=30, throw_on_fail=True)
    which = ctx.pick("strain", "both")
    c = torch.tensor(ctx.rng.integers(0, 2, size=nb))
    if which == "strain":
        f = lambda t, e, T: (solved(intg.solve_strain, t, e, T),)
        args = [t, e, T]
    else:
        y = solved(intg.solve_strain, t, e, T).detach()
        load = torch.where(c == 0, e, 0.5 * y[..., 0])
        f = lambda t, T, x, c: (solved(intg.solve_both, t, T, x, c),)
        args = [t, T, load, c]
    compare(ctx, f"{which} {ref.kind}", f, args, rtol=1e-5)


@case("P36", 700, 20000)
def integrals(ctx):
    """User systems"""
    nb, n, nt = ctx.int(1, 3), ctx.int(1, 3), ctx.pick(1, 2, 4, 9)
    terms = [t for t in ("lin", "tanh", "cube", "sin", "ext") if ctx.flip(0.6)] or ["cube", "sin"]
    s = odes.System(ctx, nb, n, terms=terms, stiff=ctx.logu(0.3, 1.5))
    t = odes.grid(ctx, nt, nb, tmax=1.0)
    if ctx.flip(0.4):
        t = t[:, :1].expand(nt, nb).clone()
    o = odes.options(ctx, nt)
    y0 = uniform(ctx, ctx.uni(-1, 1, nb, n))
    fn = ctx.pick(ode.odeint, ode.odeint_adjoint)

    def f(y, t):
        try:
            return (fn(s, y, t, throw_on_fail=True, **o),)
        except RuntimeError as e:
            if "succeed" in str(e) and o["method"] == "forward-euler":
                raise Skip from e
            raise

    compare(ctx, fn.__name__, f, [y0, t], rtol=1e-7)


@case("P36", 900, 20000)
def helpers(ctx):
    """Linear algebra, series, conversions"""
    nb, nt = ctx.int(1, 4), ctx.int(2, 8)
    what = ctx.cycle("thomas", "pcr", "hybrid", "matvec", "lu", "jacobi", "arbitrary", "batch", "cheater",
                     "times", "single", "convert", "mbmm")
    b, n = ctx.int(1, 3), ctx.int(1, 3)
    if what in ("thomas", "pcr", "hybrid", "matvec"):
        A = torch.eye(n) * 2.0 + 0.3 * ctx.normal(nt, b, n, n)
        B = 0.5 * ctx.normal(nt - 1, b, n, n)
        r = ctx.normal(nt, b, n)
        if what == "matvec":
            v = r.transpose(0, 1).reshape(b, nt * n)
            return compare(ctx, what, lambda A, B, v: (chunktime.BidiagonalForwardOperator(A, B)(v),),
                           [A, B, v])
        cls = {"thomas": chunktime.BidiagonalThomasFactorization, "pcr": chunktime.BidiagonalPCRFactorization,
               "hybrid": lambda A, B: chunktime.BidiagonalHybridFactorization(A, B, min_size=2)}[what]
        return compare(ctx, what, lambda A, B, v: (cls(A, B)(v),),
                       [A, B, r.transpose(0, 1).reshape(b, nt * n)])
    if what in ("lu", "jacobi"):
        A = torch.diag_embed(ctx.uni(1, 3, b, n)) + (0.1 * ctx.normal(b, n, n) if what == "lu" else 0.0)
        f = solvers.lu_linear_solve if what == "lu" else solvers.jacobi_iteration_linear_solve
        return compare(ctx, what, lambda A, r: (f(A, r),), [A, ctx.normal(b, n)], rtol=1e-6)
    if what == "mbmm":
        return compare(ctx, what, lambda A, r: (utility.mbmm(A, r),),
                       [ctx.normal(b, nt, n, n), ctx.normal(b, nt, n, 2)])
    t = torch.cumsum(ctx.uni(0.1, 1.0, nt, nb), 0)
    x = ctx.normal(nt, nb)
    if what == "convert":
        ne = ctx.int(1, 4)
        nt = ctx.int(4, 8)
        data, cyc, ty, _ = inference.dataset(ctx, nt, ne)
        return compare(ctx, what, lambda p, c, k: (experiments.convert_results(p, c, k),),
                       [ctx.normal(nt, ne), cyc, ty])
    if what in ("cheater", "single"):
        t = t[:, :1].expand(nt, nb).clone()
    q = t[0] + (t[-1] - t[0]) * (ctx.uni(0.05, 0.95) if what in ("cheater", "single") else ctx.uni(0.05, 0.95, nb))
    if what == "single":
        return compare(ctx, what, lambda t, x, q: (
            utility.timeseries_interpolate_single_times(t, x, q),), [t[:, 0].clone(), x, q[0].clone()])
    if what == "times":
        return compare(ctx, what, lambda t, x, q: (
            utility.timeseries_interpolate_batch_times(t, x, q),), [t, x, q])
    cls = {"arbitrary": utility.ArbitraryBatchTimeSeriesInterpolator,
           "batch": utility.BatchTimeSeriesInterpolator,
           "cheater": utility.CheaterBatchTimeSeriesInterpolator}[what]
    if what == "arbitrary" and ctx.flip():
        k = ctx.int(1, 4)
        q = t[0] + (t[-1] - t[0]) * ctx.uni(0.05, 0.95, k, nb)
    return compare(ctx, what, lambda t, x, q: (cls(t, x)(q),), [t, x, q])


@case("P36", 60, 1500)
def predictions(ctx):
    """Predictions of calibration models"""
    nt, ne = ctx.int(5, 9), ctx.int(1, 4)
    mk = inference.Maker(ctx)
    data, cyc, ty, co = inference.dataset(ctx, nt, ne)
    vals = [torch.as_tensor(ctx.uni(0.3, 0.7, *mk.shape(n)), dtype=torch.float64) for n in mk.names]
    m = optimize.DeterministicModel(lambda *a: mk(*a, use_adjoint=False), mk.names, vals)
    compare(ctx, "prediction", lambda d, c, t, o: (solved(m, d, c, t, o),), [data, cyc, ty, co], rtol=1e-5)
