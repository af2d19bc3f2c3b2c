"""P22: numerical scalings are transparent"""
import copy

import torch

from mon import gens
from mon.common import case, solved, Skip
from mon.p12 import ystate
from pyoptmat import models, scaling, temperature

RULE = (
    "models whose parameters are given scaled compared with the same models given in physical units; "
    "a case counts if its (model, control, shape) signature is new"
)


def rescale(ctx, obj):
    """
    Give every constant parameter of a model a random scaling

    Returns the scaled model, and the list of (raw, physical) tensors
    """
    mod = copy.deepcopy(obj)
    pairs = []
    phys = [m for m in obj.modules() if isinstance(m, temperature.ConstantParameter)]
    scal = [m for m in mod.modules() if isinstance(m, temperature.ConstantParameter)]
    for a, b in zip(phys, scal):
        v = a.pvalue.detach()
        if bool(((v == 0) | (v == 1)).all()):
            continue  # switched off: an exponent of one may not become less by rounding
        lo, hi = v * ctx.uni(0.2, 0.9) - 1e-12, v * ctx.uni(1.1, 3.0) + 1e-12
        if bool((v < 0).any()):
            lo, hi = hi, lo
        f = ctx.pick(
            scaling.SimpleScalingFunction(torch.tensor(ctx.logu(1e-3, 1e3))),
            scaling.BoundedScalingFunction(lo, hi), scaling.LogBoundedScalingFunction(lo, hi))
        if bool((v <= 1e-9).any()) and isinstance(f, scaling.LogBoundedScalingFunction):
            f = scaling.BoundedScalingFunction(lo, hi)
        if bool((v < 0).any()):
            f = scaling.SimpleScalingFunction(torch.tensor(ctx.logu(1e-3, 1e3)))
        x = torch.nn.Parameter(f.unscale(v).detach())
        if f.scale(x).sub(v).abs().max() > 1e-9 * v.abs().max():
            f = scaling.SimpleScalingFunction(torch.tensor(2.0))
            x = torch.nn.Parameter(v / 2.0)
        b.pvalue = x
        old = b.p_scale
        probe = torch.tensor(0.371)
        plain = bool(b.scaling(old(probe)) == probe)
        if plain and ctx.flip():
            b.scaling = f.scale
        else:
            b.p_scale = lambda x, old=old, f=f: old(f.scale(x))
        a.pvalue = torch.nn.Parameter(v.clone())
        pairs.append((x, a.pvalue, f))
    return mod, pairs


@case("P22", 600, 12000)
def rates(ctx):
    """Rates, Jacobians and derivatives with respect to the parameters"""
    nb = ctx.int(1, 3)
    obj, ref = gens.Gen(ctx, batch=nb, kinds=("const",)).model()
    mod, pairs = rescale(ctx, obj)
    if not pairs:
        raise Skip
    sh = gens.lead(ctx, nb)
    y, t, T, e = ystate(ctx, sh, ref)
    ctx.describe(model=ref.kind, shape=list(sh), parameters=len(pairs))
    ctx.sig(ref.kind, sh, len(pairs))
    a, b = obj(t, y, e, T), mod(t, y, e, T)
    for name, u, v in zip(("rate", "d/dstate", "d/drate"), a, b):
        ctx.close(name, v, u, rtol=1e-6, scale=u.abs() + 1e-7 * u.abs().max(), atol=1e-300)
    W = ctx.normal(*a[0].shape) / (1.0 + a[0].detach().abs())
    ga = torch.autograd.grad((a[0] * W).sum(), [p for _, p, _ in pairs], allow_unused=True)
    gb = torch.autograd.grad((b[0] * W).sum(), [x for x, _, _ in pairs], allow_unused=True)
    for (x, p, f), u, v in zip(pairs, ga, gb):
        if u is None or v is None:
            ctx.expect((u is None) == (v is None) or float((u if v is None else v).abs().max()) == 0,
                       "same dependence on the parameters")
            continue
        s = torch.autograd.grad(f.scale(x).sum(), x)[0]
        if not bool(torch.isfinite(u).all()):
            continue
        ctx.saw("parameter derivatives", x.numel())
        want = u.reshape(s.shape) * s
        ctx.close("derivative with respect to a scaled parameter", v, want, rtol=1e-5,
                  scale=want.abs() + 1e-6 * want.abs().max(), atol=1e-12)


@case("P22", 500, 10000)
def parameters(ctx):
    """Temperature dependent parameters and polynomials given in scaled units"""
    nb = ctx.int(1, 4)
    sh = ctx.pick((), (nb,))
    kind = ctx.cycle("const", "shear", "shearexp", "mts", "kmn", "kmeta", "poly", "piece", "arr", "iarr")
    t = temperature
    mu = torch.tensor(ctx.uni(6e4, 9e4))
    k = torch.tensor(ctx.uni(0.2, 5.0))  # the same modulus, part of it applied afterwards
    mu0 = t.ConstantParameter(mu)
    mu = ctx.pick(mu0, t.ConstantParameter(mu / k, scaling=lambda x: x * k),
                  t.PolynomialScaling(torch.stack([torch.tensor(0.0), mu / k]), scaling=lambda x: x * k))
    b, kb, e0 = torch.tensor(2.5e-7), torch.tensor(1.38e-20), torch.tensor(ctx.logu(1e6, 1e10))
    u = lambda lo, hi, *s: torch.as_tensor(ctx.uni(lo, hi, *s), dtype=torch.float64)
    ctrl = torch.linspace(gens.TLO, gens.THI, ctx.int(2, 6))
    make = {
        "const": (lambda v, **kw: t.ConstantParameter(v, **kw), [("p_scale", u(1.0, 10.0, *sh))]),
        "shear": (lambda a, m=mu0, **kw: t.ShearModulusScaling(a, m, **kw), [("A_scale", u(1e-3, 1e-2, *sh))]),
        "shearexp": (lambda a, m=mu0, **kw: t.ShearModulusScalingExp(a, m, **kw), [("A_scale", u(0.5, 2.0, *sh))]),
        "mts": (lambda x, g, q, p, m=mu0, **kw: t.MTSScaling(x, g, q, p, kb, b, m, **kw), [
            ("tau0_scale", u(50.0, 500.0, *sh)), ("g0_scale", u(3.0, 6.0, *sh)),
            ("q_scale", u(0.8, 2.0, *sh)), ("p_scale", u(0.8, 2.0, *sh))]),
        "kmn": (lambda a, m=mu0, **kw: t.KMRateSensitivityScaling(a, m, b, kb, **kw),
                [("A_scale", u(-15.0, -5.0, *sh))]),
        "kmeta": (lambda a, bb, m=mu0, **kw: t.KMViscosityScaling(a, bb, m, e0, b, kb, **kw),
                  [("A_scale", u(-15.0, -5.0, *sh)), ("B_scale", u(-6.0, -3.0, *sh))]),
        "poly": (lambda c, **kw: t.PolynomialScaling(c, **kw),
                 [("coef_scale_fn", torch.stack([u(1e-3, 1e-2, *sh), u(1.0, 10.0, *sh)]))]),
        "piece": (lambda v, **kw: t.PiecewiseScaling(ctrl, v, **kw),
                  [("values_scale_fn", u(1.0, 100.0, *sh, len(ctrl)))]),
        "arr": (lambda a, q, **kw: t.ArrheniusScaling(a, q, **kw),
                [("A_scale", u(1.0, 100.0, *sh)), ("Q_scale", u(100.0, 4000.0, *sh))]),
        "iarr": (lambda a, q, **kw: t.InverseArrheniusScaling(a, q, **kw),
                 [("A_scale", u(1.0, 100.0, *sh)), ("Q_scale", u(100.0, 4000.0, *sh))]),
    }
    f, args = make[kind]
    raw, kw, names = [], {}, []
    for name, v in args:
        sgn = -1.0 if bool((v < 0).any()) else 1.0
        lo, hi = (sgn * v).min() * 0.5, (sgn * v).max() * 2.0
        if v.dim() and ctx.flip():  # bounds for every component, or for every control point
            red = list(range(v.dim() - 1)) if kind == "piece" and ctx.flip() else []
            lo = ((sgn * v).amin(red) if red else sgn * v) * 0.5
            hi = ((sgn * v).amax(red) if red else sgn * v) * ctx.uni(1.5, 2.0)
        w = ctx.pick("none", "simple", "bounded", "log")
        g = {"none": None, "simple": scaling.SimpleScalingFunction(torch.tensor(ctx.logu(1e-3, 1e3))),
             "bounded": scaling.BoundedScalingFunction(lo, hi),
             "log": scaling.LogBoundedScalingFunction(lo, hi)}[w]
        names.append(w)
        x = v
        if g is not None:
            x = g.unscale(sgn * v)
            kw[name] = lambda x, g=g, sgn=sgn: sgn * g.scale(x)
        raw.append(x.detach().clone().requires_grad_(True))
    phys = [v.detach().clone().requires_grad_(True) for _, v in args]
    T = u(gens.TLO, gens.THI, *gens.lead(ctx, nb))
    ctx.describe(kind=kind, scalings=names, shape=list(sh))
    ctx.sig(kind, tuple(names), sh, T.shape)
    outer = ctx.pick(1.0, 1.0, ctx.uni(0.2, 5.0))  # a part of the scaling applied to the result
    more = {"scaling": lambda x: x / outer} if outer != 1.0 else {}
    if kind in ("shear", "shearexp", "mts", "kmn", "kmeta"):
        more["m"] = mu
    a, c = f(*phys)(T).expand(T.shape), f(*raw, **kw, **more)(T).expand(T.shape) * outer
    ctx.close("value", c, a, rtol=1e-9, atol=1e-12)
    W = ctx.normal(*T.shape)
    ga = torch.autograd.grad((a * W).sum(), phys)
    gb = torch.autograd.grad((c * W).sum(), raw)
    for (name, _), x, u_, v_ in zip(args, raw, ga, gb):
        s = torch.autograd.grad(kw.get(name, lambda x: x * 1.0)(x).sum(), x)[0]
        ctx.close("derivative with respect to a scaled parameter", v_, u_ * s, rtol=1e-7,
                  atol=1e-9 * (1e-9 + float((u_ * s).abs().max())))
        ctx.saw("parameter derivatives", x.numel())


@case("P22", 50, 2500)
def simulated(ctx):
    """Simulations"""
    nb, nt = ctx.int(1, 3), ctx.pick(4, 8)
    g = gens.Gen(ctx, batch=nb, kinds=("const",))
    obj, ref = g.model(flow=g.isokin() if ctx.flip(0.7) else None, dkind=ctx.pick("hl", "const", "none"))
    mod, pairs = rescale(ctx, obj)
    t, e, T = gens.history(ctx, nt, nb, emax=0.01)
    kw = dict(block_size=ctx.pick(1, 3, nt + 4), rtol=1e-15, atol=1e-8, miter=30, throw_on_fail=True)
    out = [solved(models.ModelIntegrator(m, **kw).solve_strain, t, e, T).detach() for m in (obj, mod)]
    if not torch.isfinite(out[0]).all() or (ref.damaged and float(out[0][..., -1].max()) > 0.5):
        raise Skip
    ctx.describe(model=ref.kind, nb=nb, nt=nt, parameters=len(pairs))
    ctx.sig(ref.kind, nb, nt, kw["block_size"])
    ctx.close("simulation", out[1], out[0], rtol=1e-5, scale=out[0].abs().amax(0), atol=1e-6)
