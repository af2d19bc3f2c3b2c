"""P14: composition rules of the constitutive building blocks"""
import torch

from mon import gens
from mon.common import case, solved, Skip
from mon.p12 import ystate
from pyoptmat import damage, flowrules, hardening, models, temperature

RULE = (
    "pairs of differently composed objects which must be the same model, compared in every rate and "
    "derivative (or along simulations); a case counts if its (composition, parts, shape) is new"
)


def flow_all(obj, s, h, t, T, e):
    """Everything a flow rule reports"""
    f, df = obj.flow_rate(s, h, t, T, e)
    r, dr = obj.history_rate(s, h, t, T, e)
    ex = lambda x: x.expand_as(s)
    return {
        "flow": f, "dflow": df, "dflow_dhist": obj.dflow_dhist(s, h, t, T, e),
        "dflow_derate": ex(obj.dflow_derate(s, h, t, T, e)), "hist": r, "dhist": dr,
        "dhist_ds": obj.dhist_dstress(s, h, t, T, e), "dhist_de": obj.dhist_derate(s, h, t, T, e),
    }


def equal(ctx, a, b, what):
    """Compare dictionaries of tensors"""
    for k in a:
        if a[k].numel() == 0:
            ctx.shape(f"{what}: {k}", a[k], b[k].shape)
            continue
        ctx.close(f"{what}: {k}", a[k], b[k], rtol=1e-10, atol=1e-13 * float(b[k].abs().max()) + 1e-300)


@case("P14", 1400, 30000)
def flows(ctx):
    """Sums, switches, blends and wrappers of flow rules"""
    nb = ctx.int(1, 3)
    g = gens.Gen(ctx, batch=nb)
    sh = gens.lead(ctx, nb)
    kind = ctx.cycle("sum", "nested", "single", "wrap0", "wrap1", "kmsame", "softsame", "kmlow", "kmhigh",
                     "softlow", "softhigh")
    ctx.describe(composition=kind, shape=list(sh))
    if kind in ("sum", "nested", "single"):
        parts = [g.flow(depth=1) for _ in range(1 if kind == "single" else ctx.int(2, 4))]
        n = [p[1].n for p in parts]
        s, h, t, T, e = gens.point(ctx, sh, sum(n))
        ctx.sig(kind, [p[1].kind for p in parts], sh)
        whole = flow_all(flowrules.SuperimposedFlowRule([p[0] for p in parts]), s, h, t, T, e)
        if kind == "nested":
            k = ctx.int(1, len(parts) - 1)
            groups = [flowrules.SuperimposedFlowRule([p[0] for p in q])
                      for q in (parts[:k], parts[k:])]
            equal(ctx, whole, flow_all(flowrules.SuperimposedFlowRule(groups), s, h, t, T, e), kind)
            return
        o = 0
        want = {k: torch.zeros_like(v) for k, v in whole.items()}
        for (p, _), m in zip(parts, n):
            sl = slice(o, o + m)
            x = flow_all(p, s, h[..., sl], t, T, e)
            for k in ("flow", "dflow", "dflow_derate"):
                want[k] += x[k]
            want["dflow_dhist"][..., sl] = x["dflow_dhist"]
            want["dhist"][..., sl, sl] = x["dhist"]
            for k in ("hist", "dhist_ds", "dhist_de"):
                want[k][..., sl] = x[k]
            o += m
        equal(ctx, whole, want, kind)
        return
    k = ctx.pick("none", "fa", "fano", "farec", "chab2")
    k1 = k2 = k
    if k == "chab2":
        k1 = k2 = "fa"
    a, b = g.isokin(kin=k1), g.isokin(kin=k2)
    if ctx.flip(0.3):
        a, b = g.perfect(), g.perfect()
    s, h, t, T, e = gens.point(ctx, sh, a[1].n)
    ctx.sig(kind, a[1].kind, b[1].kind, sh)
    if kind == "wrap0":
        equal(ctx, flow_all(flowrules.RateIndependentFlowRuleWrapper(
            a[0], torch.tensor(0.0), torch.tensor(1e-3)), s, h, t, T, e),
            flow_all(a[0], s, h, t, T, e), kind)
        return
    if kind == "wrap1":
        # at the reference rate the wrapper does not scale the rates
        er = torch.tensor(ctx.logu(1e-5, 1e-2))
        e = er * torch.sign(e)
        x = flow_all(flowrules.RateIndependentFlowRuleWrapper(
            a[0], torch.tensor(ctx.pick(0.3, 0.9, 1.0)), er), s, h, t, T, e)
        y = flow_all(a[0], s, h, t, T, e)
        for k in ("dflow_derate", "dhist_de"):
            x.pop(k)
        equal(ctx, x, {q: y[q] for q in x}, kind)
        return
    mu = temperature.ConstantParameter(torch.tensor(ctx.uni(5e4, 8e4)))
    args = (mu, torch.tensor(2.48e-7), torch.tensor(1e8), torch.tensor(1.38064e-20))
    low, high = torch.tensor(1e6), torch.tensor(-1e6)
    if kind.endswith("same"):
        g0 = torch.tensor(ctx.uni(0.2, 0.8))
        if kind == "kmsame":
            m = flowrules.KocksMeckingRegimeFlowRule(a[0], a[0], g0, *args)
        else:
            m = flowrules.SoftKocksMeckingRegimeFlowRule(a[0], a[0], g0, *args, torch.tensor(5.0))
        equal(ctx, flow_all(m, s, h, t, T, e), flow_all(a[0], s, h, t, T, e), kind)
        return
    g0 = low if kind.endswith("low") else high
    if kind.startswith("km"):
        m = flowrules.KocksMeckingRegimeFlowRule(a[0], b[0], g0, *args)
    else:
        m = flowrules.SoftKocksMeckingRegimeFlowRule(a[0], b[0], g0, *args, torch.tensor(1.0))
        if kind == "softlow":
            m.g0 = torch.tensor(500.0)
        else:
            m.g0 = torch.tensor(-500.0)
    equal(ctx, flow_all(m, s, h, t, T, e),
          flow_all((a if kind.endswith("low") else b)[0], s, h, t, T, e), kind)


def hard_all(obj, s, h, t, ep, T, e):
    """Everything a hardening model reports"""
    return {
        "value": obj.value(h), "dvalue": obj.dvalue(h),
        "rate": obj.history_rate(s, h, t, ep, T, e),
        "drate_dh": obj.dhistory_rate_dhistory(s, h, t, ep, T, e),
        "drate_dep": obj.dhistory_rate_derate(s, h, t, ep, T, e).expand(h.shape + (1,)),
        "drate_ds": obj.dhistory_rate_dstress(s, h, t, ep, T, e),
        "drate_de": obj.dhistory_rate_dtotalrate(s, h, t, ep, T, e),
    }


@case("P14", 900, 20000)
def hardenings(ctx):
    """Equivalent hardening models"""
    nb = ctx.int(1, 3)
    sh = gens.lead(ctx, nb)
    n = ctx.int(1, 4)
    psh = (nb, n) if ctx.flip() else (n,)
    C, g = ctx.uni(1e3, 2e4, *psh), ctx.uni(20.0, 200.0, *psh)
    b, r = ctx.uni(1e-6, 1e-4, *psh), ctx.uni(1.3, 3.0, *psh)
    cp = temperature.ConstantParameter
    kind = ctx.cycle("chab-super", "chabrec-super", "chabrec0-chab", "fa-fano", "super-none", "theta-voce",
                     "recovery0-theta", "nested-super")
    one = lambda i: [cp(x[..., i]) for x in (C, g, b, r)]
    s, h, t, T, e = gens.point(ctx, sh, n)
    ep = ctx.logu(1e-6, 1e-1, *sh) * torch.tensor(ctx.rng.choice([-1.0, 1.0], size=sh))
    H = hardening
    ctx.describe(composition=kind, shape=list(sh), n=n)
    ctx.sig(kind, sh, n, psh)
    if kind == "chab-super":
        x = H.ChabocheHardeningModel(cp(C), cp(g))
        y = H.SuperimposedKinematicHardening(
            [H.FAKinematicHardeningModelNoRecovery(*one(i)[:2]) for i in range(n)])
    elif kind == "chabrec-super":
        x = H.ChabocheHardeningModelRecovery(cp(C), cp(g), cp(b), cp(r))
        y = H.SuperimposedKinematicHardening(
            [H.FAKinematicHardeningModel(*one(i)) for i in range(n)])
    elif kind == "chabrec0-chab":
        x = H.ChabocheHardeningModelRecovery(cp(C), cp(g), cp(torch.zeros_like(b)), cp(r))
        y = H.ChabocheHardeningModel(cp(C), cp(g))
    elif kind == "fa-fano":
        h = h[..., :1]
        x, y = H.FAKinematicHardeningModel(*one(0)[:2]), H.FAKinematicHardeningModelNoRecovery(*one(0)[:2])
    elif kind == "super-none":
        x = H.SuperimposedKinematicHardening(
            [H.NoKinematicHardeningModel(), H.ChabocheHardeningModel(cp(C), cp(g)),
             H.NoKinematicHardeningModel()])
        y = H.ChabocheHardeningModel(cp(C), cp(g))
    elif kind == "theta-voce":
        h = h[..., :1]
        tau, d = cp(ctx.uni(20.0, 150.0, nb)), cp(ctx.uni(1.0, 20.0, nb))
        x = H.Theta0VoceIsotropicHardeningModel(tau, cp(tau(T) * d(T) if False else tau.pvalue * d.pvalue))
        y = H.VoceIsotropicHardeningModel(tau, d)
    elif kind == "recovery0-theta":
        h = h[..., :1]
        tau, th = cp(ctx.uni(20.0, 150.0, nb)), cp(ctx.uni(200.0, 2000.0, nb))
        z = cp(torch.tensor(0.0))
        x = H.Theta0RecoveryVoceIsotropicHardeningModel(tau, th, z, z, cp(torch.tensor(2.0)))
        y = H.Theta0VoceIsotropicHardeningModel(tau, th)
    else:
        ms = [H.FAKinematicHardeningModel(*one(i)) for i in range(n)]
        k = ctx.int(0, n)
        S = H.SuperimposedKinematicHardening
        x, y = S([S(ms[:k]), S(ms[k:])]), S(ms)
    equal(ctx, hard_all(x, s, h, t, ep, T, e), hard_all(y, s, h, t, ep, T, e), kind)


@case("P14", 500, 12000)
def wholes(ctx):
    """A damage model without damage is the undamaged model"""
    nb = ctx.int(1, 3)
    g = gens.Gen(ctx, batch=nb)
    fl = g.flow()
    a, ra = g.model(damaged=False, flow=fl)
    zero = ctx.pick(damage.NoDamage(), damage.ConstantDamage(temperature.ConstantParameter(torch.tensor(0.0))))
    b = models.DamagedInelasticModel(a.E, fl[0], dmodel=zero)
    sh = gens.lead(ctx, nb)
    y, t, T, e = ystate(ctx, sh, ra)
    ctx.describe(model=ra.kind, shape=list(sh))
    ctx.sig(ra.kind, sh, type(zero).__name__)
    z = torch.cat([y, torch.zeros_like(y[..., :1])], -1)
    r1, J1, E1, _ = a(t, y, e, T)
    r2, J2, E2, _ = b(t, z, e, T)
    equal(ctx, {"rate": r2[..., :-1], "Jacobian": J2[..., :-1, :-1], "rate derivative": E2[..., :-1]},
          {"rate": r1, "Jacobian": J1, "rate derivative": E1}, "undamaged")
    ctx.expect(bool((r2[..., -1] == 0).all()), "damage stays zero")
    d = ctx.uni(0.1, 0.8, *sh)
    # effective stress concept
    ye = y.clone()
    ye[..., 0] = y[..., 0] / (1 - d)
    z = torch.cat([y, d[..., None]], -1)
    r3 = b(t, z, e, T)[0]
    r4 = a(t, ye, e, T)[0]
    want = r4.clone()
    want[..., 0] *= 1 - d
    equal(ctx, {"rate": r3[..., :-1]}, {"rate": want}, "effective stress")


@case("P14", 40, 2000)
def simulated(ctx):
    """The same along simulations"""
    nb, nt = ctx.int(1, 3), ctx.pick(4, 8)
    g = gens.Gen(ctx, batch=nb)
    fl = g.isokin()
    a, ra = g.model(damaged=False, flow=fl)
    b = models.DamagedInelasticModel(a.E, flowrules.SuperimposedFlowRule([fl[0]]))
    t, e, T = gens.history(ctx, nt, nb, emax=0.01)
    kw = dict(rtol=1e-15, atol=1e-8, miter=40, throw_on_fail=True, block_size=ctx.pick(1, 3, nt))
    ctx.describe(model=ra.kind, nb=nb, nt=nt)
    ctx.sig(ra.kind, nb, nt, kw["block_size"])
    x = solved(models.ModelIntegrator(a, **kw).solve_strain, t, e, T).detach()
    y = solved(models.ModelIntegrator(b, **kw).solve_strain, t, e, T).detach()
    if not torch.isfinite(x).all():
        raise Skip
    ctx.close("simulation", y[..., :-1], x, rtol=1e-6, scale=x.abs().amax(0), atol=1e-6)
    ctx.expect(bool((y[..., -1] == 0).all()), "damage stays zero")
