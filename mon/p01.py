"""P01: trajectories satisfy the discretised equations"""
import torch

from mon import odes
from mon.common import case
from pyoptmat import ode

RULE = (
    "random nonlinear ODE systems x time grids x solver options; a case counts if its "
    "(terms, size, batch, ntime, options) signature is new and its residuals were judged"
)


def draw(ctx, **kw):
    """System, initial state, grid"""
    nb, n = ctx.pick(1, 2, 3, 5), ctx.pick(1, 2, 3, 4)
    nt = ctx.pick(2, 3, 5, 8, 9, 13, 17, 26)
    nb, n, nt = odes.sizes(ctx, nb, n, nt)
    s = odes.System(ctx, nb, n, stiff=ctx.logu(0.5, 8.0), **kw)
    y0 = ctx.uni(-1.0, 1.0, nb, n)
    if ctx.flip(0.3):
        y0[ctx.int(0, nb - 1)] = 0.0
    t = odes.grid(ctx, nt, nb, repeats=ctx.flip(0.3))
    return s, y0, t, nb, n, nt


@case("P01", 3000, 60000)
def residuals(ctx):
    """Residual of every step within the requested tolerance, against a step by step reference"""
    s, y0, t, nb, n, nt = draw(ctx)
    tight = ctx.flip(0.6)
    mild = set(s.terms) <= {"cube", "sin", "ext"}
    o = odes.options(ctx, nt, tight=tight)
    ref = odes.reference(s, y0, t, o["method"])
    if o["method"] == "forward-euler" and (ref is None or float(ref.abs().max()) > 50):
        o["method"] = "backward-euler"
        ref = odes.reference(s, y0, t, o["method"])
    if not tight:
        o["guess_type"] = "zero"
        o["rtol"], o["atol"] = ctx.pick((1e-6, 1e-8), (1e-4, 1e-6), (1e-3, 1e-9))
    if ref is None or float(ref.abs().max()) > 50:
        ref = None
    fn = ctx.pick(ode.odeint, ode.odeint_adjoint)
    ctx.describe(terms=s.terms, nb=nb, n=n, ntime=nt, options=o)
    if o["method"] == "forward-euler" and "cube" in s.terms:
        mild = False
    s.record = True
    try:
        y = fn(s, y0, t, throw_on_fail=True, **o)
    except RuntimeError as e:
        # Hard problems may fail, as long as they say so
        if mild or "did not succeed" not in str(e):
            raise
        ctx.saw("signalled failures")
        return
    s.record = False
    ctx.sig(s.terms, nb, n, nt, o["method"], o["block_size"], o["direct_solve_method"],
            o["linear_solve_method"], o["guess_type"])
    ctx.saw("rate evaluations requested by the integrator", len(s.calls))
    ctx.shape("result", y, (nt, nb, n))
    ctx.same("initial condition", y[0].detach(), y0)
    R = odes.residual(s, t, y, o["method"])
    f = odes.rates_at(s, t, y)
    dt = t.diff(dim=0)[..., None]
    bs = o["block_size"]
    for k in range(0, nt - 1, bs):
        Rb = R[k:k + bs].transpose(0, 1).flatten(1)
        nR = Rb.norm(dim=-1)
        start = y[k].detach()
        m = min(bs, nt - 1 - k)
        # residual of the zero increment guess
        g = odes.rates_at(s, t[k:k + m + 1], start.expand(m + 1, -1, -1))
        R0 = dt[k:k + bs] * (g[1:] if o["method"] == "backward-euler" else g[:-1])
        nR0 = R0.transpose(0, 1).flatten(1).norm(dim=-1)
        floor = 1e-12 * (1 + float(y.detach().abs().max()) + float((dt * f[1:]).abs().max()))
        floor *= max(1, m)
        if o["guess_type"] == "zero":
            ok = bool((nR <= 2 * o["atol"] + floor).all()) or bool(
                (nR <= 2 * o["rtol"] * nR0 + floor).all())
        else:
            ok = bool((nR <= 2 * o["atol"] + floor + 1e-7 * nR0 + 1e-9).all())
        ctx.saw("blocks judged")
        ctx.saw("steps judged", m)
        ctx.expect(ok, f"block starting at step {k} leaves a residual of {nR.tolist()} "
                       f"(initial residual {nR0.tolist()})", options=o)
    if tight and ref is not None and (o["method"] == "forward-euler" or bs <= 8):
        # contraction of the step map may amplify, so compare loosely
        if mild or o["method"] == "forward-euler":
            ctx.close("trajectory against the step by step reference", y, ref, rtol=1e-5, atol=1e-6)


@case("P01", 400, 4000)
def single_time(ctx):
    """Degenerate grids: one time only, all times equal"""
    nb, n = ctx.int(1, 3), ctx.int(1, 3)
    s = odes.System(ctx, nb, n)
    y0 = ctx.normal(nb, n)
    nt = ctx.pick(1, 1, 2, 5)
    t = torch.full((nt, nb), ctx.uni(0.0, 2.0))
    o = odes.options(ctx, nt)
    ctx.describe(nt=nt, options=o)
    ctx.sig(nt, nb, n, o["method"], o["block_size"], o["direct_solve_method"])
    y = ctx.pick(ode.odeint, ode.odeint_adjoint)(s, y0, t, throw_on_fail=True, **o)
    ctx.shape("result", y, (nt, nb, n))
    ctx.close("solution cannot move without time", y, y0.expand(nt, nb, n), rtol=1e-9, atol=1e-9)


@case("P01", 1200, 20000)
def mixed_convergence(ctx):
    """One member needs many iterations, the others none: all of them have to converge"""
    nb, n, nt = ctx.int(2, 6), ctx.int(1, 3), ctx.int(3, 12)
    nb, n, nt = odes.sizes(ctx, nb, n, nt)
    s = odes.System(ctx, nb, n, terms=["lin", "cube", "sin"], perbatch=True)
    hard = ctx.int(0, nb - 1)
    with torch.no_grad():
        s.cube *= 0.0
        s.cube[hard] = ctx.logu(5.0, 200.0)
        s.sin *= ctx.logu(1e-3, 10.0, nb, 1)
    y0 = ctx.uni(-1.0, 1.0, nb, n) * ctx.logu(1e-4, 1.0, nb, 1)
    y0[hard] = ctx.uni(1.0, 2.0, n)
    t = odes.grid(ctx, nt, nb)
    o = odes.options(ctx, nt, method="backward-euler")
    ctx.describe(nb=nb, n=n, ntime=nt, hard=hard, options=o)
    ctx.sig(nb, n, nt, hard, o["block_size"], o["direct_solve_method"], o["guess_type"])
    y = ode.odeint(s, y0, t, **o)
    R = odes.residual(s, t, y, "backward-euler")
    ctx.saw("steps judged", nt - 1)
    g = odes.rates_at(s, t, y0.expand(nt, -1, -1))
    big = float((t.diff(dim=0)[..., None] * g[1:]).norm())
    ctx.close("residual of the discretised equations", R, torch.zeros_like(R), atol=2e-8 * max(
        1.0, float(y.detach().abs().max())) + 1e-9 * big)
    ref = odes.reference(s, y0, t, "backward-euler")
    if ref is not None:
        ctx.close("trajectory against the step by step reference", y, ref, rtol=1e-6, atol=1e-7)
