"""P19: invariances in time"""
import torch

from mon import gens
from mon.common import case, solved, Skip
from pyoptmat import flowrules, models, temperature

RULE = (
    "a simulation compared with the same one at other absolute times, or stretched in time for rate "
    "independent models; a case counts if its (model, control, shape, transformation) is new"
)


@case("P19", 70, 3500)
def shift(ctx):
    """Only time differences matter"""
    nb, nt = ctx.int(1, 4), ctx.pick(4, 8, 13)
    g = gens.Gen(ctx, batch=nb)
    obj, ref = g.model(flow=g.isokin() if ctx.flip(0.6) else None, dkind=ctx.pick("hl", "const", "none"))
    t, e, T = gens.history(ctx, nt, nb, emax=0.01, repeats=ctx.flip(0.2))
    # times which are shifted without rounding
    t = torch.round(t * 1024) / ctx.pick(1024, 65536)
    intg = models.ModelIntegrator(
        obj, use_adjoint=ctx.flip(), block_size=ctx.pick(1, 3, nt + 4), rtol=1e-15, atol=1e-8,
        miter=30, throw_on_fail=True)
    far = ctx.pick(4000, 2 ** 31)  # up to time stamps
    sh = torch.tensor(ctx.rng.integers(-far, far, size=nb).astype(float))
    if ctx.flip(0.3):
        sh = sh[0].expand(nb)
    y = solved(intg.solve_strain, t, e, T).detach()
    if not torch.isfinite(y).all() or (ref.damaged and float(y[..., -1].max()) > 0.5):
        raise Skip
    mode = ctx.cycle("strain", "stress", "both")
    ctx.describe(model=ref.kind, nb=nb, nt=nt, mode=mode, shift=sh)
    ctx.sig(ref.kind, nb, nt, mode)
    s = y[..., 0]
    if mode == "strain":
        a, b = y, solved(intg.solve_strain, t + sh, e, T).detach()
    elif mode == "stress":
        a = solved(intg.solve_stress, t, s, T).detach()
        b = solved(intg.solve_stress, t + sh, s, T).detach()
    else:
        c = torch.tensor(ctx.rng.integers(0, 2, size=nb))
        d = torch.where(c == 0, e, s)
        a = solved(intg.solve_both, t, T, d, c).detach()
        b = solved(intg.solve_both, t + sh, T, d, c).detach()
    ctx.close("shifted in time", b, a, rtol=1e-7, scale=a.abs().amax(0), atol=1e-7)


@case("P19", 70, 3500)
def rateindependent(ctx):
    """Models declared rate independent only see the load path"""
    nb, nt = ctx.int(1, 4), ctx.pick(4, 8, 13)
    g = gens.Gen(ctx, batch=nb)
    fl = g.isokin() if ctx.flip(0.6) else g.flow(ctx.pick("perfect", "super"), depth=1)
    if "km(" in fl[1].kind or "ri(" in fl[1].kind:
        raise Skip
    er = torch.tensor(ctx.logu(1e-4, 1e-2))
    w = flowrules.RateIndependentFlowRuleWrapper(fl[0], torch.tensor(1.0), er)
    obj = models.InelasticModel(temperature.ConstantParameter(torch.tensor(ctx.uni(5e4, 2e5))), w)
    t, e, T = gens.history(ctx, nt, nb, emax=0.01)
    intg = models.ModelIntegrator(
        obj, use_adjoint=ctx.flip(), block_size=ctx.pick(1, 3, nt + 4), rtol=1e-15, atol=1e-8,
        miter=30, throw_on_fail=True)
    k = ctx.logu(1e-3, 1e3, nb)
    ctx.describe(model=fl[1].kind, nb=nb, nt=nt, stretch=k)
    ctx.sig(fl[1].kind, nb, nt)
    y = solved(intg.solve_strain, t, e, T).detach()
    z = solved(intg.solve_strain, t * k, e, T).detach()
    if not torch.isfinite(y).all():
        raise Skip
    ctx.close("stretched in time", z, y, rtol=1e-6, scale=y.abs().amax(0), atol=1e-6)


@case("P19", 70, 3500)
def viscosity(ctx):
    """Stretching time by k equals changing the fluidity by k"""
    nb, nt = ctx.int(1, 4), ctx.pick(4, 8, 13)
    g = gens.Gen(ctx, batch=nb, kinds=("const",), pbatch=0.5)
    nv, ev, Ev = (ctx.uni(1.0, 8.0), ctx.uni(50.0, 200.0), ctx.uni(5e4, 2e5))
    cp = lambda x: temperature.ConstantParameter(torch.tensor(x))
    iso, kin = g.isotropic(ctx.pick("voce", "theta")), g.kinematic(ctx.pick("none", "fano", "fa", "chab"))
    k = ctx.logu(1e-2, 1e2)
    t, e, T = gens.history(ctx, nt, nb, emax=0.01)
    out = []
    s0 = ctx.uni(0.0, 50.0)
    kw = dict(block_size=ctx.pick(1, 3, nt + 4), rtol=1e-15, atol=1e-8, miter=30, throw_on_fail=True)
    ctx.describe(iso=iso[1].kind, kin=kin[1].kind, nb=nb, nt=nt, k=k, n=nv)
    ctx.sig(iso[1].kind, kin[1].kind, nb, nt, kw["block_size"], round(k, 3))
    for time, eta in ((t, ev), (t * k, ev * k ** (1.0 / nv))):
        obj = models.InelasticModel(cp(Ev), flowrules.IsoKinViscoplasticity(
            cp(nv), cp(eta), cp(s0), iso[0], kin[0]))
        out.append(solved(models.ModelIntegrator(obj, **kw).solve_strain, time, e, T).detach())
    if not torch.isfinite(out[0]).all():
        raise Skip
    ctx.close("time - viscosity equivalence", out[1], out[0], rtol=1e-6, scale=out[0].abs().amax(0),
              atol=1e-6)
