"""P11: derivatives of the constitutive components"""
import torch

from mon import gens
from mon.common import case

RULE = (
    "random components at random states, each analytic derivative against a fourth order finite "
    "difference of the component's own rate; a case counts if its (component, shape) signature is new"
)


def up(*xs):
    """Unsqueeze"""
    return [x[..., None] for x in xs]


@case("P11", 1500, 30000)
def flow(ctx):
    """Flow rules: stress, history and strain rate derivatives of both rates"""
    nb = ctx.int(1, 4)
    g = gens.Gen(ctx, batch=nb)
    obj, ref = g.flow(ctx.cycle(None, "isokin", "perfect", "super", "km", "softkm", "ri"))
    sh = gens.lead(ctx, nb)
    s, h, t, T, e = gens.point(ctx, sh, ref.n)
    ctx.describe(component=ref.kind, shape=list(sh))
    ctx.sig(ref.kind, sh)
    ctx.expect(obj.nhist == ref.n, "number of internal variables", got=obj.nhist, want=ref.n)
    fr, dfr = obj.flow_rate(s, h, t, T, e)
    hr, dhr = obj.history_rate(s, h, t, T, e)
    hs, hh, he = torch.full_like(s, 1e-2), torch.full_like(h, 1e-2), 1e-3 * e.abs()
    F = lambda s_, h_, e_: obj.flow_rate(s_, h_, t, T, e_)[0]
    H = lambda s_, h_, e_: obj.history_rate(s_, h_, t, T, e_)[0]
    gens.judge(ctx, "d flow / d stress", dfr, *gens.fdiff(lambda x: F(x, h, e), s, hs), fr, 10.0)
    gens.judge(ctx, "d flow / d history", obj.dflow_dhist(s, h, t, T, e)[..., 0, :],
               *gens.jac(lambda x: F(s, x, e), h, hh), fr[..., None], 10.0)
    gens.judge(ctx, "d flow / d strain rate", obj.dflow_derate(s, h, t, T, e).expand_as(s),
               *gens.fdiff(lambda x: F(s, h, x), e, he), fr, e.abs())
    gens.judge(ctx, "d history rate / d stress", obj.dhist_dstress(s, h, t, T, e),
               *gens.fdiff(lambda x: H(x, h, e), s, hs), hr, 10.0)
    gens.judge(ctx, "d history rate / d history", dhr, *gens.jac(lambda x: H(s, x, e), h, hh),
               hr[..., None], 10.0)
    gens.judge(ctx, "d history rate / d strain rate", obj.dhist_derate(s, h, t, T, e),
               *gens.fdiff(lambda x: H(s, h, x), e, he), hr, e.abs()[..., None])


@case("P11", 1500, 30000)
def hardening(ctx):
    """Hardening models: value and rate derivatives"""
    nb = ctx.int(1, 4)
    g = gens.Gen(ctx, batch=nb)
    kind = ctx.cycle("voce", "theta", "thetarec", "none", "fa", "farec", "fano", "chab", "chabrec", "super")
    obj, ref = (g.isotropic if kind in ("voce", "theta", "thetarec") else g.kinematic)(kind)
    sh = gens.lead(ctx, nb)
    s, h, t, T, e = gens.point(ctx, sh, ref.n)
    ep = ctx.logu(1e-6, 1e-1, *sh) * torch.tensor(ctx.rng.choice([-1.0, 1.0], size=sh))
    ctx.describe(component=kind, shape=list(sh), n=ref.n)
    ctx.sig(kind, sh, ref.n)
    ctx.expect(obj.nhist == ref.n, "number of internal variables", got=obj.nhist, want=ref.n)
    v = obj.value(h)
    hh = torch.full_like(h, 1e-2)
    gens.judge(ctx, "d value / d history", obj.dvalue(h), *gens.jac(obj.value, h, hh),
               v[..., None], 10.0)
    R = lambda h_, ep_: obj.history_rate(s, h_, t, ep_, T, e)
    r = R(h, ep)
    gens.judge(ctx, "d history rate / d history", obj.dhistory_rate_dhistory(s, h, t, ep, T, e),
               *gens.jac(lambda x: R(x, ep), h, hh), r[..., None], 10.0)
    gens.judge(ctx, "d history rate / d inelastic rate",
               obj.dhistory_rate_derate(s, h, t, ep, T, e)[..., 0].expand_as(h),
               *gens.fdiff(lambda x: R(h, x), ep, 1e-3 * ep.abs()), r, ep.abs()[..., None])
    gens.judge(ctx, "d history rate / d stress", obj.dhistory_rate_dstress(s, h, t, ep, T, e),
               *gens.fdiff(lambda x: obj.history_rate(x, h, t, ep, T, e), s, torch.full_like(s, 1e-2)),
               r, 10.0)
    gens.judge(ctx, "d history rate / d total rate", obj.dhistory_rate_dtotalrate(s, h, t, ep, T, e),
               *gens.fdiff(lambda x: obj.history_rate(s, h, t, ep, T, x), e, 1e-3 * e.abs()),
               r, e.abs()[..., None])


@case("P11", 800, 15000)
def damage(ctx):
    """Damage models"""
    nb = ctx.int(1, 4)
    g = gens.Gen(ctx, batch=nb)
    obj, ref = g.damage(ctx.cycle("none", "hl", "const", "lm"))
    sh = gens.lead(ctx, nb)
    s, _, t, T, e = gens.point(ctx, sh, 0)
    d = ctx.uni(0.0, 0.8, *sh)
    ctx.describe(component=ref.kind, shape=list(sh))
    ctx.sig(ref.kind, sh, round(float(d.mean()), 3))
    r, dr = obj.damage_rate(s, d, t, T, e)
    gens.judge(ctx, "d damage rate / d damage", dr.expand_as(s),
               *gens.fdiff(lambda x: obj.damage_rate(s, x, t, T, e)[0], d, torch.full_like(d, 1e-4)),
               r, 0.1)
    gens.judge(ctx, "d damage rate / d stress", obj.d_damage_rate_d_s(s, d, t, T, e),
               *gens.fdiff(lambda x: obj.damage_rate(x, d, t, T, e)[0], s, torch.full_like(s, 1e-2)),
               r, 10.0)
    gens.judge(ctx, "d damage rate / d strain rate", obj.d_damage_rate_d_e(s, d, t, T, e),
               *gens.fdiff(lambda x: obj.damage_rate(s, d, t, T, x)[0], e, 1e-3 * e.abs()),
               r, e.abs())
