"""P12: Jacobians of complete material models under every kind of control"""
import torch

from mon import gens
from mon.common import case, Skip
from pyoptmat import flowrules, hardening, models, utility

RULE = (
    "random complete models at random states; Jacobians against fourth order finite differences of "
    "the model's own rate; a case counts if its (model, control, shape) signature is new"
)


def ystate(ctx, sh, ref):
    """A state of a full model with time, temperature, rate"""
    s, h, t, T, e = gens.point(ctx, sh, ref.n - (2 if ref.damaged else 1))
    parts = [s[..., None], h]
    if ref.damaged:
        parts.append(ctx.uni(0.0, 0.6, *sh)[..., None])
    return torch.cat(parts, -1), t, T, e


def steps(y, ref):
    """Finite difference steps"""
    st = torch.full_like(y, 1e-2)
    if ref.damaged:
        st[..., -1] = 1e-4
    return st


def sizes(y, ref):
    """Scale of the components"""
    sz = torch.full((y.shape[-1],), 10.0)
    if ref.damaged:
        sz[-1] = 0.1
    return sz


@case("P12", 450, 12000)
def model(ctx):
    """Rate Jacobian and strain rate derivative"""
    nb = ctx.int(1, 4)
    g = gens.Gen(ctx, batch=nb)
    obj, ref = g.model()
    sh = gens.lead(ctx, nb)
    y, t, T, e = ystate(ctx, sh, ref)
    ctx.describe(model=ref.kind, shape=list(sh))
    ctx.sig(ref.kind, sh)
    ctx.expect(obj.nhist == ref.n, "number of state variables", got=obj.nhist, want=ref.n)
    r, J, Je, _ = obj(t, y, e, T)
    gens.judge(ctx, "d rate / d state", J, *gens.jac(lambda x: obj(t, x, e, T)[0], y, steps(y, ref)),
               r[..., None], sizes(y, ref))
    gens.judge(ctx, "d rate / d strain rate", Je,
               *gens.fdiff(lambda x: obj(t, y, x, T)[0], e, 1e-3 * e.abs()), r, e.abs()[..., None])


@case("P12", 120, 4000)
def extended(ctx):
    """Models assembled from components that depend on everything the interfaces offer"""
    nb = ctx.int(1, 4)
    g = gens.Gen(ctx, batch=nb)
    iso = gens.UserIsotropic(ctx) if ctx.flip(0.7) else g.isotropic()[0]
    kin = ctx.cycle("user", "super", "lib")
    if kin == "user":
        kobj = gens.UserKinematic(ctx)
    elif kin == "super":
        subs = [gens.UserKinematic(ctx), g.kinematic(depth=1)[0]]
        kobj = hardening.SuperimposedKinematicHardening(subs if ctx.flip() else subs[::-1])
    else:
        kobj = g.kinematic()[0]
    fo = flowrules.IsoKinViscoplasticity(g.p(2.0, 6.0)[0], g.p(50.0, 200.0)[0], g.p(0.0, 50.0)[0],
                                         iso, kobj)
    if ctx.flip(0.3):
        fo = flowrules.SuperimposedFlowRule([g.perfect()[0], fo])
    if ctx.flip(0.3):
        fo = flowrules.RateIndependentFlowRuleWrapper(fo, torch.tensor(0.7), torch.tensor(1e-3))
    damaged = ctx.flip(0.7)
    if damaged:
        obj = models.DamagedInelasticModel(g.p(5e4, 2e5)[0], fo, dmodel=gens.UserDamage(ctx))
    else:
        obj = models.InelasticModel(g.p(5e4, 2e5)[0], fo)
    ref = gens.Ref(n=obj.nhist, damaged=damaged)
    sh = gens.lead(ctx, nb)
    y, t, T, e = ystate(ctx, sh, ref)
    kind = (type(fo).__name__, type(iso).__name__, type(kobj).__name__, damaged)
    ctx.describe(model=kind, shape=list(sh))
    ctx.sig(kind, obj.nhist, sh)
    r, J, Je, _ = obj(t, y, e, T)
    ctx.shape("rate", r, y.shape)
    gens.judge(ctx, "d rate / d state", J, *gens.jac(lambda x: obj(t, x, e, T)[0], y, steps(y, ref)),
               r[..., None], sizes(y, ref))
    gens.judge(ctx, "d rate / d strain rate", Je,
               *gens.fdiff(lambda x: obj(t, y, x, T)[0], e, 1e-3 * e.abs()), r, e.abs()[..., None])


@case("P12", 300, 6000)
def controlled(ctx):
    """Strain, stress and mixed control"""
    nb, nt = ctx.int(1, 4), ctx.int(2, 5)
    g = gens.Gen(ctx, batch=nb)
    fl = g.isokin() if ctx.flip(0.6) else g.flow(ctx.pick("perfect", "super", "ri", "isokin"))
    mode = ctx.cycle("strain", "stress", "both")
    if "km(" in fl[1].kind or (mode != "strain" and "ri(" in fl[1].kind):
        raise Skip  # see implicit
    obj, ref = g.model(flow=fl)
    y, _, T, _ = ystate(ctx, (nt, nb), ref)
    times = torch.cat([torch.zeros(1, nb), ctx.uni(0.5, 2.0, nt - 1, nb).cumsum(0)])
    sig = y[..., 0].clone()
    erate = ctx.logu(1e-5, 1e-2, nt, nb) * torch.tensor(ctx.rng.choice([-1.0, 1.0], size=(nt, nb)))
    srate = ctx.uni(-50.0, 50.0, nt, nb)
    I = utility.ArbitraryBatchTimeSeriesInterpolator
    ctrl = torch.tensor(ctx.rng.integers(0, 2, size=nb))
    if mode == "strain":
        f = models.StrainBasedModel(obj, I(times, erate), I(times, T))
        ctrl = torch.zeros(nb, dtype=torch.long)
    elif mode == "stress":
        f = models.StressBasedModel(obj, I(times, srate), I(times, sig), I(times, T))
        ctrl = torch.ones(nb, dtype=torch.long)
        y[..., 0] = ctx.uni(-0.01, 0.01, nt, nb)
    else:
        f = models.BothBasedModel(obj, I(times, torch.where(ctrl == 0, erate, srate)), I(times, sig),
                                  I(times, T), ctrl)
        y[..., 0] = torch.where(ctrl == 0, y[..., 0], ctx.uni(-0.01, 0.01, nt, nb))
    ctx.describe(model=ref.kind, mode=mode, nb=nb, nt=nt, control=ctrl)
    ctx.sig(ref.kind, mode, nb, nt, tuple(ctrl.tolist()))
    r, J = f(times, y)
    # the rate reported by an independently written model
    yy = y.clone()
    yy[..., 0] = torch.where(ctrl == 0, y[..., 0], sig)
    fr = ref.fr
    d = yy[..., -1] if ref.damaged else torch.zeros(nt, nb)
    se, h = yy[..., 0] / (1 - d), (yy[..., 1:-1] if ref.damaged else yy[..., 1:])
    if "ri(" not in ref.kind:
        # the strain rate that makes the stress rate equal to the prescribed one
        e = torch.where(ctrl == 0, erate,
                        srate / ((1 - d) * ref.E(T)) + fr.flow(se, h, T, erate))
        want = ref.rate(yy, e, T)
        want[..., 0] = torch.where(ctrl == 0, want[..., 0], e)
        sc = want.abs() + fr.flow(se, h, T, e).abs()[..., None] * 1e-3
        ctx.close("rate", r, want, rtol=1e-6, scale=sc, atol=1e-12)
    num, err = gens.jac(lambda x: f(times, x)[0], y, steps(y, ref))
    mask = (torch.arange(y.shape[-1]) == 0)[None, None, None, :] & (ctrl == 1)[None, :, None, None]
    ctx.expect(bool((J[mask.expand_as(J)] == 0).all()),
               "stress controlled rates do not depend on the first state variable")
    gens.judge(ctx, "d rate / d state", J, num, err, r[..., None], sizes(y, ref), rtol=2e-5)


@case("P12", 60, 2000)
def implicit(ctx):
    """Stress control of rate sensitive rules: derivative of the implicitly defined strain rate"""
    nb, nt = ctx.int(1, 3), ctx.int(2, 4)
    g = gens.Gen(ctx, batch=nb)
    obj, ref = g.model(flow=g.flow(ctx.pick("softkm", "ri", "km")))
    y, _, T, _ = ystate(ctx, (nt, nb), ref)
    y[..., 0] *= 0.3
    times = torch.cat([torch.zeros(1, nb), ctx.uni(0.5, 2.0, nt - 1, nb).cumsum(0)])
    sig = y[..., 0].clone()
    e0 = ctx.logu(1e-5, 1e-2, nt, nb)
    srate = obj(times, y, e0, T)[0][..., 0]
    I = utility.ArbitraryBatchTimeSeriesInterpolator
    f = models.StressBasedModel(obj, I(times, srate), I(times, sig), I(times, T))
    r, J = f(times, y)
    e = r[..., 0]
    rr, JJ, Je, _ = obj(times, y, e, T)
    res = (rr[..., 0] - srate).abs() / (srate.abs() + 1e-6)
    good = (res < 1e-5) & (Je[..., 0].abs() > 1e-3 * ref.E(T))
    if not bool(good.any()):
        raise Skip
    ctx.describe(model=ref.kind, nb=nb, nt=nt)
    ctx.sig(ref.kind, nb, nt)
    de = -JJ[..., 0, 1:] / Je[..., 0, None]
    want = torch.zeros_like(J)
    want[..., 0, 1:] = de
    want[..., 1:, 1:] = JJ[..., 1:, 1:] + Je[..., 1:, None] * de[..., None, :]
    sc = want.abs().amax(-1, keepdim=True)
    ctx.saw("states judged", int(good.sum()))
    ctx.close("implicit derivative", J[good], want[good], rtol=1e-4,
              scale=sc.expand_as(want)[good], atol=1e-12)
    ctx.close("history rates", r[..., 1:][good], rr[..., 1:][good], rtol=1e-5, atol=1e-12)
