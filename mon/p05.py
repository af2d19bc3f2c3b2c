"""P05: gradients are the derivatives of the discrete solution"""
import torch

from mon import gens, odes
from mon.common import case, solved, Skip
from mon.p02 import mild, loss_of
from pyoptmat import models, ode

RULE = (
    "gradients by the adjoint method and by backpropagation against the exact derivative of an "
    "independent step by step integration; a case counts if its (problem, parameter roles, loss, "
    "options) signature is new and gradients were compared"
)


def zeros_for_none(gs, ps):
    """None means zero"""
    return [torch.zeros_like(p) if g is None else g for g, p in zip(gs, ps)]


@case("P05", 1800, 40000)
def exact(ctx):
    """Every kind of parameter, both ways of differentiation"""
    nb, n = ctx.pick(1, 2, 3), ctx.pick(1, 2, 3, 4)
    nt = ctx.pick(2, 3, 4, 6, 9, 10, 17)
    nb, n, nt = odes.sizes(ctx, nb, n, nt, 60)
    terms = [t for t in ("lin", "tanh", "cube", "sin", "ext") if ctx.flip(0.6)] or ["cube", "sin"]
    roles = ctx.cycle("plain", "extra", "extra_nonleaf", "y0_nonleaf", "unused", "frozen", "y0_fixed",
                      "only_y0", "extra_repeated")
    extra = ()
    if roles.startswith("extra"):
        extra = [t for t in terms if ctx.flip(0.5)] or [terms[-1]]
    s = odes.System(ctx, nb, n, terms=terms, stiff=ctx.logu(0.3, 1.5), extra=extra,
                    unused=roles == "unused", frozen=roles == "frozen")
    if roles == "only_y0":
        for p in s.parameters():
            p.requires_grad_(False)
        if ctx.flip():
            s.terms = tuple(k for k in s.terms if k in ("sin", "ext")) or s.terms
    t = odes.grid(ctx, nt, nb, tmax=1.0, repeats=ctx.flip(0.2))
    o = odes.options(ctx, nt)
    L = loss_of(ctx, (nt, nb, n))
    y0 = ctx.uni(-1, 1, nb, n)
    leaves, extras = [], s.extra_tensors
    if roles == "extra_nonleaf":
        for k in extra:
            root = s.raw[k].detach().clone().requires_grad_(True)
            leaves.append((root, s.raw[k]))
            s.raw[k] = root * 1.0 + 0.1 * root ** 2
        extras = [s.raw[k] for k in extra]
        ps = [root for root, _ in leaves]
    else:
        ps = list(extras)
    if roles == "extra_repeated":  # naming a parameter again does not make it count more
        again = list(extras) + list(s.parameters())
        extras = list(extras) + [p for p in again if ctx.flip()]
        extras = [extras[i] for i in ctx.rng.permutation(len(extras))]
    if roles == "y0_nonleaf":
        z = y0.clone().requires_grad_(True)
        start, ps = torch.sin(z) + 0.5 * z, ps + [z]
    elif roles == "y0_fixed":
        start = y0
    else:
        start = y0.clone().requires_grad_(True)
        ps = ps + [start]
    ps += [p for p in s.parameters() if p.requires_grad]
    if not ps:
        raise Skip
    ref = odes.reference(s, start, t, o["method"], grad=True)
    if ref is None or float(ref.detach().abs().max()) > 20:
        raise Skip
    want = zeros_for_none(torch.autograd.grad(L(ref), ps, allow_unused=True, retain_graph=True), ps)
    ctx.describe(terms=s.terms, nb=nb, n=n, nt=nt, roles=roles, options=o)
    ctx.sig(s.terms, nb, n, nt, roles, tuple(sorted(o.items())))
    sc = max([1.0] + [float(g.abs().max()) for g in want])
    for fn in (ode.odeint_adjoint, ode.odeint):
        y = fn(s, start, t, extra_params=extras or None, throw_on_fail=True, **o)
        ctx.close("trajectory", y, ref, rtol=1e-6, atol=1e-7)
        got = zeros_for_none(
            torch.autograd.grad(L(y), ps, allow_unused=True, retain_graph=True), ps)
        for g, w, p in zip(got, want, ps):
            ctx.saw("gradient entries", p.numel())
            ctx.close(f"gradient through {fn.__name__}", g, w, rtol=1e-6, atol=1e-6 * sc,
                      options=o, roles=roles)


@case("P05", 120, 3000)
def backward_accumulates(ctx):
    """backward() fills .grad of exactly the trainable parameters"""
    nb, n, nt = ctx.pick(1, 2), ctx.pick(1, 2, 3), ctx.pick(3, 6, 9)
    s = mild(ctx, nb, n, frozen=ctx.flip(), unused=ctx.flip())
    t = odes.grid(ctx, nt, nb, tmax=1.0)
    y0 = ctx.uni(-1, 1, nb, n)
    o = odes.options(ctx, nt)
    L = loss_of(ctx, (nt, nb, n))
    ref = odes.reference(s, y0, t, o["method"], grad=True)
    if ref is None or not ref.requires_grad or float(ref.detach().abs().max()) > 20:
        raise Skip
    ps = [p for p in s.parameters() if p.requires_grad]
    want = zeros_for_none(torch.autograd.grad(L(ref), ps, allow_unused=True), ps)
    fn = ctx.pick(ode.odeint_adjoint, ode.odeint)
    L(fn(s, y0, t, throw_on_fail=True, **o)).backward()
    ctx.describe(terms=s.terms, nb=nb, n=n, nt=nt, options=o, fn=fn.__name__)
    ctx.sig(s.terms, nb, n, nt, fn.__name__, tuple(sorted(o.items())))
    sc = max([1.0] + [float(g.abs().max()) for g in want])
    for p, w in zip(ps, want):
        ctx.close("accumulated gradient", torch.zeros_like(p) if p.grad is None else p.grad, w,
                  rtol=1e-6, atol=1e-6 * sc)
    for p in s.parameters():
        if not p.requires_grad:
            ctx.expect(p.grad is None, "a frozen parameter received a gradient")


@case("P05", 60, 3000)
def material(ctx):
    """Parameters of complete material models: adjoint = backpropagation = finite differences"""
    nb, nt = ctx.int(1, 3), ctx.pick(3, 6, 9)
    P = gens.Params()
    g = gens.Gen(ctx, batch=nb, P=P)
    obj, ref = g.model(flow=g.isokin() if ctx.flip(0.7) else None,
                       dkind=ctx.pick("none", "hl", "lm", "const"))
    t, e, T = gens.history(ctx, nt, nb, emax=0.01)
    mode = ctx.cycle("strain", "stress", "both")
    ps = list(P.all)
    o = dict(block_size=ctx.pick(1, 2, 4, nt), rtol=1e-15, atol=1e-9, miter=40, throw_on_fail=True,
             direct_solve_method=ctx.pick("thomas", "pcr", "hybrid"))
    with torch.no_grad():
        base = solved(models.ModelIntegrator(obj, use_adjoint=False, **o).solve_strain, t, e, T)
    if not torch.isfinite(base).all() or (ref.damaged and float(base[..., -1].max()) > 0.5):
        raise Skip
    sig = base[..., 0].detach()
    ctrl = torch.tensor(ctx.rng.integers(0, 2, size=nb))

    def run(adj):
        i = models.ModelIntegrator(obj, use_adjoint=adj, **o)
        if mode == "strain":
            return solved(i.solve_strain, t, e, T)
        if mode == "stress":
            return solved(i.solve_stress, t, sig, T)
        return solved(i.solve_both, t, T, torch.where(ctrl == 0, e, sig), ctrl)

    y0 = run(True).detach()
    w = ctx.normal(*y0.shape) / (y0.abs().amax((0, 1)) + 1e-6)
    L = lambda y: (w * y).sum()
    ctx.describe(model=ref.kind, nb=nb, nt=nt, mode=mode, options=o, nparams=len(ps))
    ctx.sig(ref.kind, nb, nt, mode, o["block_size"], o["direct_solve_method"])
    ga = zeros_for_none(torch.autograd.grad(L(run(True)), ps, allow_unused=True), ps)
    gb = zeros_for_none(torch.autograd.grad(L(run(False)), ps, allow_unused=True), ps)
    for p, a, b in zip(ps, ga, gb):
        # natural size of the parameter's influence
        size = float((a.abs() * p.detach().abs()).max()) + 1e-3
        ctx.close("adjoint against backpropagation", a * p.detach(), b * p.detach(),
                  rtol=1e-4, atol=1e-4 * size)
    if "km(" in (ref.kind if mode != "strain" else ref.kind.replace("softkm(", "")):
        return  # finite differences would step over the switch / see the inner tolerance
    # directional finite difference along relative perturbations, two step sizes
    d = [ctx.uni(-1, 1, *p.shape) * p.detach() if p.dim() else p.detach() * ctx.uni(-1, 1)
         for p in ps]
    dd = sum(float((a * x).sum()) for a, x in zip(ga, d))
    fd = []
    for h in (2e-5, 1e-5, 5e-6):
        v = []
        for sgn in (1, -1):
            with torch.no_grad():
                for p, x in zip(ps, d):
                    p += sgn * h * x
                v.append(float(L(run(False))))
                for p, x in zip(ps, d):
                    p -= sgn * h * x
        fd.append((v[0] - v[1]) / (2 * h))
    tot = sum(float((a * x).abs().sum()) for a, x in zip(ga, d)) + 1e-3
    noise = max(abs(fd[0] - fd[1]), abs(fd[1] - fd[2]))
    if noise > 2e-4 * tot:
        ctx.saw("finite differences undecided")
        return
    ctx.close("adjoint against finite differences", torch.tensor(dd), torch.tensor(fd[1]),
              atol=2e-3 * tot, rtol=0)


@case("P05", 3, 3)
def fractional_recovery(ctx):
    """Static recovery with an exponent below two, starting from the virgin state"""
    from pyoptmat import flowrules, hardening
    from pyoptmat.temperature import ConstantParameter as CP

    r = torch.nn.Parameter(torch.tensor((1.5, 1.2, 1.8)[ctx.index % 3]))
    tau = torch.nn.Parameter(torch.tensor(1e-4))
    tn = torch.tensor
    iso = hardening.Theta0RecoveryVoceIsotropicHardeningModel(
        CP(tn(100.0)), CP(tn(1000.0)), CP(tn(0.0)), CP(tau), CP(r))
    obj = models.InelasticModel(CP(tn(1e5)), flowrules.IsoKinViscoplasticity(
        CP(tn(4.0)), CP(tn(100.0)), CP(tn(10.0)), iso, hardening.NoKinematicHardeningModel()))
    t = torch.linspace(0, 10, 6)[:, None]
    e = 0.001 * t
    T = torch.full_like(t, 500.0)
    ctx.describe(exponent=float(r.detach()))
    ctx.sig(float(r.detach()))
    gs = []
    for adj in (True, False):
        y = models.ModelIntegrator(obj, use_adjoint=adj, block_size=2, rtol=1e-15, atol=1e-9,
                                   throw_on_fail=True).solve_strain(t, e, T)
        gs.append(torch.stack(torch.autograd.grad((y[..., 0] / 100).sum(), [tau, r])))
    ctx.expect(bool(torch.isfinite(gs[0]).all()), "the adjoint gradient is a number", got=gs[0])
    ctx.close("gradients", gs[1], gs[0], rtol=1e-4, atol=1e-6)
