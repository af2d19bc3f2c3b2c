"""P13: the rates are the documented ones"""
import torch

from mon import gens
from mon.common import case

RULE = (
    "random components at random states and leading shapes, values against formulas written down "
    "independently from the documentation; a case counts if its (component, shape) signature is new"
)


@case("P13", 1500, 40000)
def flow(ctx):
    """Flow rules"""
    nb = ctx.int(1, 4)
    obj, ref = gens.Gen(ctx, batch=nb).flow(
        ctx.cycle(None, "isokin", "perfect", "super", "km", "softkm", "ri"))
    sh = gens.lead(ctx, nb)
    s, h, t, T, e = gens.point(ctx, sh, ref.n)
    if ctx.flip(0.1):
        s = torch.zeros_like(s)
    ctx.describe(component=ref.kind, shape=list(sh))
    ctx.sig(ref.kind, sh)
    f, r = ref.flow(s, h, T, e), ref.hist(s, h, T, e)
    top = float(f.abs().amax()) * 1e-9
    ctx.close("inelastic rate", obj.flow_rate(s, h, t, T, e)[0], f, rtol=1e-9,
              atol=1e-300 + 1e-6 * top)
    ctx.close("history rate", obj.history_rate(s, h, t, T, e)[0], r, rtol=1e-8,
              scale=r.abs() + 100.0 * f.abs()[..., None], atol=1e-14)


@case("P13", 2000, 40000)
def hardening(ctx):
    """Hardening models"""
    nb = ctx.int(1, 4)
    g = gens.Gen(ctx, batch=nb)
    kind = ctx.cycle("voce", "theta", "thetarec", "none", "fa", "farec", "fano", "chab", "chabrec", "super")
    obj, ref = (g.isotropic if kind in ("voce", "theta", "thetarec") else g.kinematic)(kind)
    sh = gens.lead(ctx, nb)
    s, h, t, T, e = gens.point(ctx, sh, ref.n)
    ep = ctx.logu(1e-6, 1e-1, *sh) * torch.tensor(ctx.rng.choice([-1.0, 0.0, 1.0], size=sh))
    ctx.describe(component=kind, shape=list(sh), n=ref.n)
    ctx.sig(kind, sh, ref.n, round(float(T.mean())))
    ctx.close("value", obj.value(h), ref.value(h), rtol=1e-12, atol=1e-12)
    r = ref.rate(h, ep, T)
    ctx.close("history rate", obj.history_rate(s, h, t, ep, T, e), r, rtol=1e-8,
              scale=r.abs() + 100.0 * ep.abs()[..., None], atol=1e-14)


@case("P13", 800, 20000)
def damage(ctx):
    """Damage models"""
    nb = ctx.int(1, 4)
    obj, ref = gens.Gen(ctx, batch=nb).damage(ctx.cycle("none", "hl", "const", "lm"))
    sh = gens.lead(ctx, nb)
    s, _, t, T, e = gens.point(ctx, sh, 0)
    d = ctx.uni(0.0, ctx.pick(0.5, 0.9, 0.999), *sh)
    ctx.describe(component=ref.kind, shape=list(sh))
    ctx.sig(ref.kind, sh, round(float(d.mean()), 3))
    ctx.close("damage rate", obj.damage_rate(s, d, t, T, e)[0], ref.rate(s, d, T), rtol=1e-9)


@case("P13", 1200, 30000)
def model(ctx):
    """Complete models"""
    from mon.p12 import ystate

    nb = ctx.int(1, 4)
    obj, ref = gens.Gen(ctx, batch=nb).model()
    sh = gens.lead(ctx, nb)
    y, t, T, e = ystate(ctx, sh, ref)
    if ref.damaged and ctx.flip():
        y[..., -1] = 1.0 - ctx.logu(1e-4, 1.0, *sh)  # up to rupture
    ctx.describe(model=ref.kind, shape=list(sh))
    ctx.sig(ref.kind, sh)
    r = ref.rate(y, e, T)
    sc = r.abs().clone()
    sc[..., 0] += (ref.E(T) * e).abs()
    if not ref.damaged:
        sc[..., 1:] += 1e-4 * sc[..., :1]
    else:
        sc[..., 1:-1] += 1e-4 * sc[..., :1]
    ctx.close("state rate", obj(t, y, e, T)[0], r, rtol=1e-8, scale=sc, atol=1e-14)
