"""P35: composed models are complete torch modules"""
import copy

import torch
from torch import nn

from mon import gens, inference
from mon.common import case, solved
from pyoptmat import damage, flowrules, hardening, models, optimize
from pyoptmat import temperature as temp

RULE = (
    "random composed objects with torch parameters: their parameters listed, copied, saved and loaded, and "
    "the resulting objects evaluated; a case counts if its (object, shapes, operation) signature is new"
)


def evaluate(o, kind, s, h, t, T, e):
    """All the values and derivatives of an object at a point"""
    if kind == "temperature":
        return (o(T).expand(T.shape),)
    if kind == "model":
        y = torch.cat([s[..., None], h], -1)
        if isinstance(o, models.DamagedInelasticModel):
            y = torch.cat([y[..., :-1], (y[..., -1:] / 1e3).abs()], -1)
        return o(t, y, e, T)
    if kind == "flow":
        return (*o.flow_rate(s, h, t, T, e), *o.history_rate(s, h, t, T, e),
                o.dflow_dhist(s, h, t, T, e), o.dhist_dstress(s, h, t, T, e),
                o.dflow_derate(s, h, t, T, e), o.dhist_derate(s, h, t, T, e))
    if kind == "damage":
        d = (s / 1e3).abs()
        return *o.damage_rate(s, d, t, T, e), o.d_damage_rate_d_s(s, d, t, T, e)
    return (o.value(h), o.dvalue(h), o.history_rate(s, h, t, e, T, e),
            o.dhistory_rate_dhistory(s, h, t, e, T, e), o.dhistory_rate_derate(s, h, t, e, T, e))


def make(ctx, kind, nb):
    """Object, name, number of history variables, its parameters"""
    P = gens.Params()
    if kind == "temperature":
        what = ctx.pick("const", "shear", "shearexp", "mts", "kmn", "kmeta", "piece", "poly", "arr", "iarr")
        v = lambda lo, hi, *s: P(torch.as_tensor(ctx.uni(lo, hi, *s), dtype=torch.float64))
        sh = ctx.pick((), (nb,))
        b, k, t = torch.tensor(2.5e-7), torch.tensor(1.38e-20), temp
        if what in ("shear", "shearexp", "mts", "kmn", "kmeta"):
            mu = t.ConstantParameter(v(6e4, 9e4))
        obj = {
            "const": lambda: t.ConstantParameter(v(1, 10, *sh)),
            "shear": lambda: t.ShearModulusScaling(v(1e-3, 1e-2, *sh), mu),
            "shearexp": lambda: t.ShearModulusScalingExp(v(-6, -3, *sh), mu),
            "mts": lambda: t.MTSScaling(v(50, 500, *sh), v(3, 6, *sh), v(.8, 2, *sh), v(.8, 2, *sh), k, b, mu),
            "kmn": lambda: t.KMRateSensitivityScaling(v(-15, -5, *sh), mu, b, k),
            "kmeta": lambda: t.KMViscosityScaling(v(-15, -5, *sh), v(-6, -3, *sh), mu, torch.tensor(1e8), b, k),
            "poly": lambda: t.PolynomialScaling(v(1e-3, 1e-2, 3, *sh)),
            "piece": lambda: t.PiecewiseScaling(torch.linspace(gens.TLO, gens.THI, 4), v(1, 10, *sh, 4)),
            "arr": lambda: t.ArrheniusScaling(v(1, 100, *sh), v(100, 4000, *sh)),
            "iarr": lambda: t.InverseArrheniusScaling(v(1, 100, *sh), v(100, 4000, *sh)),
        }[what]()
        return obj, what, 0, list(P.all)
    g = gens.Gen(ctx, batch=nb, P=P)
    obj, ref = {"model": g.model, "flow": g.flow, "iso": g.isotropic, "kin": g.kinematic,
                "damage": g.damage}[kind]()
    n = {"model": lambda: ref.n - 1, "damage": lambda: 0}.get(kind, lambda: ref.n)()
    return obj, ref.kind, n, list(P.all)


def shaken(ctx, ps):
    """Other values for the parameters"""
    return [p.detach() * (1.0 if ctx.flip(0.2) else ctx.uni(0.99, 1.01)) for p in ps]


def put(ps, vs):
    """Set values in place"""
    with torch.no_grad():
        for p, v in zip(ps, vs):
            p.copy_(v)


@case("P35", 900, 20000)
def components(ctx):
    """Parameters, copies and state of composed objects"""
    nb = ctx.int(1, 4)
    kind = ctx.cycle("temperature", "model", "flow", "iso", "kin", "damage", "model", "flow")
    state = ctx.rng.bit_generator.state
    a, what, n, pa = make(ctx, kind, nb)
    ctx.rng.bit_generator.state = state
    b, _, _, pb = make(ctx, kind, nb)
    args = [x.clone() for x in gens.point(ctx, gens.lead(ctx, nb), n)]
    op = ctx.pick("copy", "state")
    ctx.describe(kind=kind, what=what, parameters=len(pa), operation=op)
    ctx.sig(kind, what, len(pa), op)
    own = list(a.parameters())
    ctx.expect({id(p) for p in own} == {id(p) for p in pa}, "the parameters are those of the parts",
               listed=len(own), given=len(pa))
    ctx.expect(len(own) == len(pa), "every parameter is listed once", listed=len(own), given=len(pa))
    judge = lambda w, x, y: [ctx.same(f"{w}, value {i}", p.detach(), q.detach()) for i, (p, q) in
                             enumerate(zip(evaluate(x, kind, *args), evaluate(y, kind, *args)))]
    v0, v1 = [p.detach().clone() for p in pa], shaken(ctx, pa)
    if op == "copy":
        c = copy.deepcopy(a)
        judge("copy", c, b)
        pc = dict(c.named_parameters())
        ctx.expect(len(pc) == len(pa) and not {id(p) for p in pc.values()} & {id(p) for p in pa},
                   "copies have parameters of their own")
        where = {id(p): k for k, p in a.named_parameters()}
        put([pc[where[id(p)]] for p in pa], v1)
        judge("original after a change of the copy", a, b)
        put(pb, v1)
        judge("changed copy", c, b)
        put(pa, shaken(ctx, pa))
        judge("copy after a change of the original", c, b)
    else:
        saved = {k: v.clone() for k, v in a.state_dict().items()}
        put(pa, v1)
        put(pb, shaken(ctx, pb))
        before = a.state_dict()
        b.load_state_dict(before)
        judge("loaded state", b, a)
        a.load_state_dict(saved)
        for p, v in zip(pa, v0):
            ctx.same("restored parameter", p.detach(), v)
        put(pb, v0)
        judge("restored state", a, b)
    ctx.saw(op)


@case("P35", 300, 5000)
def own(ctx):
    """Parameters given to a part directly, also as regime thresholds and mixing factors"""
    ps = []

    def v(x):
        ps.append(nn.Parameter(torch.tensor(float(x) * ctx.uni(0.9, 1.1))))
        return ps[-1]

    c = temp.ConstantParameter
    flow = lambda: flowrules.IsoKinViscoplasticity(
        c(v(3)), c(v(300)), c(v(10)), hardening.VoceIsotropicHardeningModel(c(v(50)), c(v(5))),
        hardening.NoKinematicHardeningModel())
    perfect = lambda: flowrules.PerfectViscoplasticity(c(v(4)), c(v(200)))
    what = ctx.cycle("km", "softkm", "ri", "super", "kin", "damage")
    k = (torch.tensor(1.38e-20), )
    if what == "km":
        o = flowrules.KocksMeckingRegimeFlowRule(
            perfect(), perfect(), v(0.5), c(v(8e4)), torch.tensor(2.5e-7), torch.tensor(1e6), *k)
    elif what == "softkm":
        o = flowrules.SoftKocksMeckingRegimeFlowRule(
            flow(), flow(), v(0.5), c(v(8e4)), torch.tensor(2.5e-7), torch.tensor(1e6), *k, v(20))
    elif what == "ri":
        o = flowrules.RateIndependentFlowRuleWrapper(flow(), v(0.5), v(1e-3))
    elif what == "super":
        o = flowrules.SuperimposedFlowRule(
            [flow(), flowrules.SuperimposedFlowRule([perfect(), flow()]), perfect()])
    elif what == "kin":
        ab = nn.Parameter(ctx.uni(20, 200, 3))
        ps.append(ab)
        o = hardening.SuperimposedKinematicHardening(
            [hardening.FAKinematicHardeningModel(c(v(1e3)), c(v(50))),
             hardening.SuperimposedKinematicHardening(
                 [hardening.ChabocheHardeningModel(c(ab), c(ab))])])
    else:
        o = damage.HayhurstLeckie(c(v(900)), c(v(3)), c(v(2)))
    if what not in ("kin", "damage") and ctx.flip():
        o = models.InelasticModel(c(v(1e5)), o) if ctx.flip() else models.DamagedInelasticModel(
            c(v(1e5)), o, dmodel=damage.HayhurstLeckie(c(v(900)), c(v(3)), c(v(2))))
        if ctx.flip():
            o = models.ModelIntegrator(o)
    ctx.describe(what=what, parameters=len(ps))
    ctx.sig(what, len(ps), type(o).__name__)
    got = list(o.parameters())
    ctx.expect({id(p) for p in got} == {id(p) for p in ps} and len(got) == len(ps),
               "the parameters are those given", listed=len(got), given=len(ps))
    ctx.expect(set(o.state_dict()) >= {k for k, _ in o.named_parameters(remove_duplicate=False)}, "the state has them all")
    ctx.saw("parameters", len(ps))


@case("P35", 60, 1500)
def simulations(ctx):
    """Copies of integrators and calibration models"""
    nt, ne = ctx.int(5, 12), ctx.int(1, 4)
    mk = inference.Maker(ctx)
    data = inference.dataset(ctx, nt, ne)
    vals = [torch.as_tensor(ctx.uni(0.3, 0.7, *mk.shape(n)), dtype=torch.float64) for n in mk.names]
    make_ = lambda: optimize.DeterministicModel(mk, mk.names, [v.clone() for v in vals])
    a = make_()
    ctx.describe(names=mk.names, nt=nt, ne=ne)
    ctx.sig(tuple(mk.names), nt, ne, mk.vector)
    with torch.no_grad():
        ref = solved(a, *data)
        c = copy.deepcopy(a)
        ctx.same("prediction of a copy", solved(c, *data), ref)
        put(list(c.parameters()), shaken(ctx, list(c.parameters())))
        ctx.same("prediction after a change of the copy", solved(a, *data), ref)
        new = solved(c, *data)
        b = make_()
        b.load_state_dict(c.state_dict())
        ctx.same("prediction of the loaded state", solved(b, *data), new)
        c.load_state_dict(a.state_dict())
        ctx.same("prediction after restoring", solved(c, *data), ref)
    ctx.saw("predictions", 4)
