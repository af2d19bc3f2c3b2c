"""P40: computations stay on the device of their arguments"""
import numpy as np
import pyro
import torch
import xarray as xr
from pyro.infer import SVI, Trace_ELBO

from mon import accel, gens, inference, odes
from mon.common import case, Skip
from mon.p10 import Prob
from mon.p30 import Net
from mon.p35 import evaluate, make
from pyoptmat import chunktime, experiments, models, neuralode, ode, optimize, scaling, solvers, utility

RULE = (
    "random calls with everything on an emulated second device, where each operation is observed, and with "
    "everything on the CPU; a case counts if its (call, shapes, options) signature is new"
)


def judge(ctx, what, root, args, call, leaves=lambda root, args: (), rtol=1e-9):
    """The same call on the CPU and on the device: same values and gradients, nothing elsewhere"""
    def go():
        pyro.clear_param_store()
        torch.manual_seed(ctx.index)
        try:
            out = [o for o in call(root, *args) if torch.is_tensor(o)]
        except RuntimeError as e:
            if "did not succeed" in str(e):
                return None
            raise
        xs = [x for x in leaves(root, args) if x.requires_grad]
        grads = []
        if xs and any(o.requires_grad for o in out):
            L = sum((o * (1.0 + 0.1 * k)).sum() for k, o in enumerate(out) if o.requires_grad)
            grads = [g for g in torch.autograd.grad(L, xs, allow_unused=True) if g is not None]
        return [o.detach() for o in out], [g.detach() for g in grads]

    ref = go()
    move = accel.Mover()
    root, args = move(root), [move(a) for a in args]
    watch = accel.Watch()
    try:
        with watch:
            got = go()
    except accel.DeviceError:
        raise
    except Exception as e:
        if ".numpy()" in str(e):
            raise
        # the emulation does not offer everything
        ctx.saw("not emulated")
        raise Skip from e
    ctx.saw("operations on the device", watch.log[0])
    if ref is None or got is None:
        ctx.expect(ref is got, f"{what}: fails on both devices or on none")
        raise Skip
    for name, new, old in (("value", got[0], ref[0]), ("gradient", got[1], ref[1])):
        ctx.expect(len(new) == len(old), f"{what}: number of {name}s", got=len(new), want=len(old))
        for i, (x, y) in enumerate(zip(new, old)):
            ctx.expect(isinstance(x, accel.Acc), f"{what}: {name} {i} is on the device of the arguments",
                       got=str(x.device))
            ctx.expect(x.dtype == y.dtype, f"{what}: type of {name} {i}")
            ctx.close(f"{what}: {name} {i}", accel.fetch(x) if isinstance(x, accel.Acc) else x, y, rtol=rtol,
                      atol=1e-12 + rtol * (float(y.abs().max()) if y.numel() and y.is_floating_point() else 0.0))
        ctx.saw(f"{name}s", len(new))


def params(root, args):
    """Parameters of the modules and arguments with derivatives"""
    return [p for m in root if isinstance(m, torch.nn.Module) for p in m.parameters()] + list(args)


@case("P40", 560, 15000)
def components(ctx):
    """Materials and their parts"""
    nb = ctx.int(1, 4)
    kind = ctx.cycle("temperature", "model", "flow", "iso", "kin", "damage", "model", "flow")
    obj, what, n, _ = make(ctx, kind, nb)
    args = [a.clone().requires_grad_(ctx.flip(0.3)) for a in gens.point(ctx, gens.lead(ctx, nb), n)]
    ctx.describe(kind=kind, what=what, shape=list(args[0].shape))
    ctx.sig(kind, what, tuple(args[0].shape))
    judge(ctx, f"{kind} {what}", [obj], args, lambda r, *a: evaluate(r[0], kind, *a), params)


@case("P40", 60, 1500)
def simulations(ctx):
    """Simulated tests"""
    nb, nt = ctx.int(1, 3), ctx.pick(2, 4, 6)
    P = gens.Params()
    g = gens.Gen(ctx, batch=nb, P=P)
    obj, ref = g.model(flow=g.isokin() if ctx.flip(0.7) else None)
    adj, block, how = ctx.flip(), ctx.pick(1, 3, 10), ctx.cycle("strain", "stress", "both")
    t, e, T = gens.history(ctx, nt, nb, emax=0.004)
    c = torch.tensor(ctx.rng.integers(0, 2, size=nb))
    extra = [p for p in P.all if not any(p is q for q in obj.parameters())]
    intg = models.ModelIntegrator(obj, use_adjoint=adj, block_size=block, miter=30, throw_on_fail=True,
                                  rtol=1e-8, atol=1e-6, extra_params=extra)
    ctx.describe(model=ref.kind, how=how, adjoint=adj, block_size=block, nb=nb, nt=nt)
    ctx.sig(ref.kind, how, adj, block, nb, nt)
    if how == "both":
        args, call = [t, T, torch.where(c == 0, e, e * 1e4), c], lambda r, *a: [r[0].solve_both(*a)]
    else:
        args = [t, e if how == "strain" else e * 1e4, T]
        call = lambda r, *a: [getattr(r[0], "solve_" + how)(*a)]
    judge(ctx, f"{how} {ref.kind}", [intg], args, call, params, rtol=1e-7)


@case("P40", 300, 8000)
def integrals(ctx):
    """User systems"""
    nb, n, nt = ctx.int(1, 3), ctx.int(1, 3), ctx.pick(1, 2, 4, 7, 9)
    terms = [t for t in ("lin", "tanh", "cube", "sin", "ext") if ctx.flip(0.6)] or ["cube", "sin"]
    s = odes.System(ctx, nb, n, terms=terms, stiff=0.7, extra=("cube",) if ctx.flip(0.3) else (),
                    unused=ctx.flip(0.2))
    o = odes.options(ctx, nt)
    fn = ctx.pick(ode.odeint, ode.odeint_adjoint)
    args = [ctx.uni(-1, 1, nb, n).requires_grad_(True), odes.grid(ctx, nt, nb, tmax=1.0)]
    ctx.describe(terms=terms, nb=nb, n=n, nt=nt, options=o, function=fn.__name__)
    ctx.sig(terms, nb, n, nt, tuple(sorted(o.items())), fn.__name__)

    def call(r, y0, t):
        k = dict(extra_params=r[1]) if fn is ode.odeint_adjoint and r[1] else {}
        return [fn(r[0], y0, t, throw_on_fail=True, **k, **o)]

    judge(ctx, fn.__name__, [s, s.extra_tensors], args, call, params, rtol=1e-7)


@case("P40", 600, 15000)
def helpers(ctx):
    """Linear algebra, solvers, series, conversions"""
    nb, nt = ctx.int(1, 4), ctx.int(2, 8)
    what = ctx.cycle("thomas", "pcr", "hybrid", "matvec", "lu", "jacobi", "arbitrary", "batch", "cheater", "times",
                     "single", "convert", "mbmm", "newton", "bt", "reuse", "gmres", "network",
                     "jacobians", "differences", "scalings", "load", "tension", "functions", "creep", "dense")
    b, n = ctx.int(1, 3), ctx.int(1, 3)
    ctx.describe(what=what, sizes=[nb, nt, b, n])
    ctx.sig(what, nb, nt, b, n, ctx.int(0, 3))
    R = lambda x: x.requires_grad_(True)
    go = lambda args, f, root=(): judge(ctx, what, list(root), args, lambda r, *a: f(*r, *a), params)
    if what in ("thomas", "pcr", "hybrid", "matvec"):
        A, B = R(torch.eye(n) * 2.0 + 0.3 * ctx.normal(nt, b, n, n)), R(0.5 * ctx.normal(nt - 1, b, n, n))
        cls = {"thomas": chunktime.BidiagonalThomasFactorization, "pcr": chunktime.BidiagonalPCRFactorization,
               "hybrid": lambda A, B: chunktime.BidiagonalHybridFactorization(A, B, min_size=2),
               "matvec": lambda A, B: chunktime.BidiagonalForwardOperator(A, B)}[what]
        return go([A, B, R(ctx.normal(b, nt * n))], lambda A, B, v: [cls(A, B)(v)])
    if what == "dense":
        ds = [int(i) for i in ctx.rng.permutation(np.arange(1 - nt, nt))[: ctx.int(1, 3)]]
        data = [R(ctx.normal(nt - abs(d), b, n, n)) for d in ds]

        def formats(*data):
            A = chunktime.SquareBatchedBlockDiagonalMatrix(list(data), ds)
            ctx.expect(A.device == data[0].device, "device of the matrix")
            return [A.to_dense()]

        return go(data, formats)
    if what in ("lu", "jacobi"):
        A = torch.diag_embed(ctx.uni(1, 3, b, n)) + (0.1 * ctx.normal(b, n, n) if what == "lu" else 0.0)
        f = solvers.lu_linear_solve if what == "lu" else solvers.jacobi_iteration_linear_solve
        return go([R(A), R(ctx.normal(b, n))], lambda A, r: [f(A, r)])
    if what == "gmres":
        n += 1
        A = torch.eye(n) * 3.0 + 0.3 * ctx.normal(b, n, n)
        f = ctx.pick(solvers.lu_gmres, solvers.jacobi_gmres, solvers.gmres)
        return go([A, ctx.normal(b, n)], lambda A, r: [f(A, r, tol=1e-10)])
    if what in ("newton", "bt", "reuse"):
        p = Prob(ctx, (b,), n + 1)
        f = {"newton": lambda *a: solvers.newton_raphson(*a), "bt": lambda *a: solvers.newton_raphson_bt(*a),
             "reuse": lambda *a: solvers.PreconditionerReuseNonlinearSolver().solve(*a)}[what]
        return go([p.x + 0.1 * ctx.normal(b, n + 1)], lambda p, x: list(f(p, x)), [p])
    if what == "mbmm":
        return go([R(ctx.normal(b, nt, n, n)), R(ctx.normal(b, nt, n, 2))], lambda A, r: [utility.mbmm(A, r)])
    if what == "network":
        net = Net(ctx, n, 1, ctx.pick("tanh", "silu"))
        t = torch.cumsum(ctx.uni(0.1, 1.0, nt, nb), 0)
        f = utility.ArbitraryBatchTimeSeriesInterpolator(t, ctx.normal(nt, nb))
        m = neuralode.NeuralODE(net, lambda q: f(q)[..., None])
        q = (t[0] + (t[-1] - t[0]) * ctx.uni(0.05, 0.95, nb)).expand(2, nb).clone()
        return judge(ctx, what, [m, f], [q, R(ctx.normal(2, nb, n))], lambda r, q, y: list(r[0](q, y)), params)
    if what in ("jacobians", "differences"):
        net = Net(ctx, n, 0, "tanh")
        if what == "jacobians":
            return go([R(ctx.normal(nt, b, n))],
                      lambda m, x: list(utility.jacobianize()(lambda y: m(y))(x)), [net])
        f = ctx.pick(utility.batch_differentiate, utility.new_differentiate, utility.differentiate)
        x = ctx.normal(b, n)
        return judge(ctx, what, [net], [x], lambda r, x: [f(lambda y: r[0](y), x)])
    if what == "functions":
        return go([R(ctx.normal(nt, b)), R(ctx.normal(b, n, n))],
                  lambda x, y: [utility.heaviside(x), utility.macaulay(x), utility.add_id(y)])
    if what == "scalings":
        lo, hi = ctx.uni(0.1, 1.0, n), ctx.uni(2.0, 9.0, n)
        f = ctx.pick(scaling.SimpleScalingFunction(hi), scaling.BoundedScalingFunction(lo, hi),
                     scaling.LogBoundedScalingFunction(lo, hi))
        return go([R(ctx.uni(0.0, 1.0, nt, n))], lambda f, x: [f.scale(x), f.unscale(f.scale(x)), f(x)], [f])
    if what == "tension":
        return go([ctx.uni(1e-4, 1e-2, nb), ctx.uni(300, 900, nb), ctx.uni(0.01, 0.1, nb)],
                  lambda r, T, e: list(experiments.make_tension_tests(r, T, e, nt)))
    if what == "creep":
        log, ns = ctx.flip(), ctx.int(3, 6)
        return go([ctx.uni(10, 100, nb), ctx.uni(300, 900, nb), ctx.uni(1, 5, nb), ctx.uni(100, 900, nb)],
                  lambda s, T, r, h: list(experiments.make_creep_tests(s, T, r, h, ns, ns, logspace=log)))
    if what == "load":
        names = list(experiments.exp_map)
        vals = {k: ctx.rng.standard_normal((nt, nb)) for k in ("time", "temperature", "strain", "stress")}
        ds = xr.Dataset({k: (["ntime", "nexp"], v) for k, v in vals.items()}
                        | {"cycle": (["ntime", "nexp"], ctx.rng.integers(0, 4, size=(nt, nb))),
                           "type": (["nexp"], np.array([ctx.pick(*names) for _ in range(nb)])),
                           "control": (["nexp"], np.array([ctx.pick("strain", "stress") for _ in range(nb)]))},
                        attrs={"nrates": 1})
        # a tensor tells which of the devices is meant
        return go([torch.zeros(1)], lambda x: list(experiments.load_results(ds, device=x.device)))
    t = torch.cumsum(ctx.uni(0.1, 1.0, nt, nb), 0)
    x = ctx.normal(nt, nb)
    if what == "convert":
        data, cyc, ty, _ = inference.dataset(ctx, nt + 2, nb)
        return go([R(ctx.normal(nt + 2, nb)), cyc, ty], lambda p, c, k: [experiments.convert_results(p, c, k)])
    if what in ("cheater", "single"):
        t = t[:, :1].expand(nt, nb).clone()
    q = t[0] + (t[-1] - t[0]) * (ctx.uni(0.05, 0.95) if what in ("cheater", "single") else ctx.uni(0.05, 0.95, nb))
    if what == "single":
        return go([t[:, 0].clone(), R(x), q[0].clone()],
                  lambda t, x, q: [utility.timeseries_interpolate_single_times(t, x, q)])
    if what == "times":
        return go([t, R(x), q], lambda t, x, q: [utility.timeseries_interpolate_batch_times(t, x, q)])
    cls = {"arbitrary": utility.ArbitraryBatchTimeSeriesInterpolator, "batch": utility.BatchTimeSeriesInterpolator,
           "cheater": utility.CheaterBatchTimeSeriesInterpolator}[what]
    if what == "arbitrary" and ctx.flip():
        q = t[0] + (t[-1] - t[0]) * ctx.uni(0.05, 0.95, ctx.int(1, 4), nb)
    return go([t, R(x), q], lambda t, x, q: [cls(t, x)(q)])


@case("P40", 40, 1000)
def calibration(ctx):
    """Calibration models: predictions, gradients, training steps"""
    kind = ctx.cycle("deterministic", "statistical", "hierarchical", "training")
    nt, ne = ctx.int(4, 7), ctx.int(1, 4)
    mk = inference.Maker(ctx)
    data = list(inference.dataset(ctx, nt, ne))
    u = lambda a, b, n: torch.as_tensor(ctx.uni(a, b, *mk.shape(n)), dtype=torch.float64)
    ll = [u(0.4, 0.6, n) for n in mk.names]
    ls, ss = [u(0.01, 0.05, n) for n in mk.names], [u(0.01, 0.02, n) for n in mk.names]
    per_type, inc = ctx.flip(), ctx.flip()
    eps = ctx.uni(0.5, 5.0, 7) if per_type else torch.tensor(ctx.uni(0.5, 5.0))
    weights = {n: ctx.uni(0.1, 3.0) for n in experiments.exp_map} if ctx.flip(0.4) else None
    ctx.describe(kind=kind, parameters=mk.names, types=data[2], per_type=per_type, infer_noise=inc)
    ctx.sig(kind, tuple(mk.names), tuple(data[2].tolist()), per_type, inc)
    adj = ctx.flip()
    maker = lambda *a, **k: mk(*a, use_adjoint=adj, **k)
    if kind == "deterministic":
        m = optimize.DeterministicModel(maker, mk.names, ll)
        return judge(ctx, kind, [m, mk], data, lambda r, *a: [r[0](*a)], params, rtol=1e-6)
    obs = ctx.normal(nt, ne)
    if kind == "statistical":
        make_model = lambda ll, ls, ss, eps: optimize.StatisticalModel(maker, mk.names, ll, ls, eps)
    else:
        make_model = lambda ll, ls, ss, eps: optimize.HierarchicalStatisticalModel(
            maker, mk.names, ll, ls, ss, eps, include_noise=inc, weights=weights)

    def call(r, *a):
        m = make_model(r[1], r[2], r[3], a[5])
        if kind != "training":
            return [m(*a[:4]), m(*a[:5])]
        guide = m.make_guide()
        svi = SVI(m, guide, pyro.optim.SGD({"lr": 1e-9}), Trace_ELBO())
        for _ in range(2):
            svi.step(*a[:5])
        return [p.detach().clone() for _, p in sorted(pyro.get_param_store().items())]

    judge(ctx, kind, [mk, ll, ls, ss], data + [obs, eps], call, rtol=1e-6)
