"""P33: unusable configurations are rejected"""
import torch

from mon import gens, odes
from mon.common import case
from pyoptmat import chunktime, flowrules, models, ode, solvers
from pyoptmat import temperature as temp

RULE = (
    "random configurations, valid ones and ones with one unusable choice, which must be accepted and "
    "rejected; a case counts if its (what, choice, shapes) signature is new"
)

NONSENSE = ("nonsense", "", "LU", "Thomas", "euler", "lu ", None, 3)


def judge(ctx, bad, what, f, kinds=(ValueError, KeyError)):
    """Reject bad ones, accept the others"""
    try:
        f()
    except kinds as e:
        ctx.expect(bad, f"{what}: a usable configuration was rejected", error=str(e)[:200])
        ctx.saw("rejections")
        return
    ctx.expect(not bad, f"{what}: an unusable configuration was accepted")
    ctx.saw("accepted")


@case("P33", 800, 8000)
def regimes(ctx):
    """Regime models need rules with the same history"""
    g = gens.Gen(ctx, batch=ctx.pick(None, 2))
    parts = [ctx.pick(g.isokin, g.perfect) for _ in range(2)]
    (a, ra), (b, rb) = parts[0](), parts[1]()
    if ctx.flip(0.5):
        (b, rb) = (a, ra) if ctx.flip(0.3) else (b, rb)
    if ctx.flip(0.2):
        n = max(ra.n, 1)
        a = flowrules.SuperimposedFlowRule([a] + [g.perfect()[0]] * ctx.int(0, 2))
        n = ra.n
    c = lambda x: torch.tensor(float(x))
    mu = temp.ConstantParameter(c(8e4))
    if ctx.flip():
        f = lambda: flowrules.KocksMeckingRegimeFlowRule(a, b, c(0.5), mu, c(2.5e-7), c(1e6), c(1.38e-20))
    else:
        f = lambda: flowrules.SoftKocksMeckingRegimeFlowRule(
            a, b, c(0.5), mu, c(2.5e-7), c(1e6), c(1.38e-20), c(50.0))
    ctx.describe(first=ra.kind, second=rb.kind, histories=[ra.n, rb.n])
    ctx.sig(ra.kind, rb.kind, ra.n, rb.n)
    judge(ctx, ra.n != rb.n, "regime model", f)


@case("P33", 800, 8000)
def nonlinear(ctx):
    """Nonlinear solvers know two linear solvers"""
    n, sh = ctx.int(2, 4), ctx.pick((1,), (3,), (2, 3))
    A = torch.diag_embed(ctx.uni(1.0, 4.0, *sh, n))
    x0 = ctx.normal(*sh, n) * ctx.pick(0.0, 1.0)
    name = ctx.pick("lu", "diag", *NONSENSE)
    fn = ctx.pick(solvers.newton_raphson, solvers.newton_raphson_bt)
    ctx.describe(solver=fn.__name__, linsolver=name)
    ctx.sig(fn.__name__, name, n, sh)
    judge(ctx, name not in ("lu", "diag"), "linear solver",
          lambda: fn(lambda x: ((A @ x[..., None])[..., 0], A), x0, linsolver=name))


OPTIONS = {
    "method": ("backward-euler", "forward-euler"),
    "linear_solve_method": ("direct", "dense"),
    "direct_solve_method": ("thomas", "pcr", "hybrid"),
    "guess_type": ("zero", "previous"),
}


@case("P33", 600, 8000)
def integration(ctx):
    """Options of the integration, also passed through simulated tests"""
    nb = ctx.int(1, 3)
    nt = ctx.pick(2, 3, 6)
    key = ctx.cycle(*OPTIONS)
    value = ctx.pick(*OPTIONS[key], *NONSENSE)
    opts = {key: value}
    if ctx.flip(0.5):
        opts["block_size"] = ctx.pick(1, 2, 10)
    via = ctx.pick("odeint", "odeint_adjoint", "material")
    ctx.describe(option=key, value=value, via=via, nt=nt)
    ctx.sig(key, value, via, nt, opts.get("block_size"))
    if via == "material":
        if opts.get("method") == "forward-euler":
            opts["method"] = "backward-euler"
        c = lambda x: temp.ConstantParameter(torch.tensor(float(x)))
        obj = models.InelasticModel(c(1.5e5), flowrules.PerfectViscoplasticity(c(3.0), c(500.0)))
        t, e, T = gens.history(ctx, nt, nb, emax=0.002)
        f = lambda: models.ModelIntegrator(obj, use_adjoint=ctx.flip(), **opts).solve_strain(t, e, T)
    else:
        terms = [x for x in ("lin", "tanh", "cube") if ctx.flip(0.6)] or ["lin"]
        s = odes.System(ctx, nb, 2, terms=terms, stiff=0.5)
        t = odes.grid(ctx, nt, nb, tmax=0.5)
        f = lambda: getattr(ode, via)(s, 0.1 * ctx.normal(nb, 2), t, **opts)
    judge(ctx, value not in OPTIONS[key], key, f)


@case("P33", 100, 1000)
def contexts(ctx):
    """Block operators are solved densely or directly"""
    name = ctx.pick("dense", "direct", *NONSENSE)
    ctx.describe(name=name)
    ctx.sig(name)
    judge(ctx, name not in ("dense", "direct"), "block solve method",
          lambda: chunktime.ChunkTimeOperatorSolverContext(name))
