"""P04: causality and restart"""
import torch

from mon import gens, odes
from mon.common import case, solved, Skip
from mon.p02 import mild
from pyoptmat import models, ode

RULE = (
    "an integration compared with the same one on shorter / altered / continued time histories; a "
    "case counts if its (problem, cut, options) signature is new and values were compared"
)


@case("P04", 1200, 24000)
def prefix(ctx):
    """A prefix of the times, or different later times, give the same earlier states"""
    nb, n = ctx.int(1, 3), ctx.int(1, 4)
    nt = ctx.pick(3, 5, 8, 9, 13, 18)
    nb, n, nt = odes.sizes(ctx, nb, n, nt)
    s = mild(ctx, nb, n)
    y0 = ctx.uni(-1, 1, nb, n)
    t = odes.grid(ctx, nt, nb, tmax=1.0, repeats=ctx.flip(0.2))
    o = odes.options(ctx, nt)
    fn = ctx.pick(ode.odeint, ode.odeint_adjoint)
    m = ctx.int(1, nt - 1)
    y = fn(s, y0, t, throw_on_fail=True, **o).detach()
    if float(y.abs().max()) > 20:
        raise Skip
    ctx.describe(terms=s.terms, nb=nb, n=n, nt=nt, cut=m, options=o)
    ctx.sig(s.terms, nb, n, nt, m, tuple(sorted(o.items())))
    a = fn(s, y0, t[: m + 1], throw_on_fail=True, **o).detach()
    ctx.close("states on a prefix of the times", a, y[: m + 1], rtol=1e-7, atol=1e-8)
    t2 = t.clone()
    t2[m + 1:] = t[m] + (t[m + 1:] - t[m]) * (ctx.uni(0.1, 1.0) if ctx.flip(0.7) else ctx.logu(1e-6, 1.0))
    b = fn(s, y0, t2, throw_on_fail=True, **o).detach()
    ctx.close("states before the altered times", b[: m + 1], y[: m + 1], rtol=1e-7, atol=1e-8)
    ctx.saw("later times altered", nt - 1 - m)


@case("P04", 1200, 24000)
def restart(ctx):
    """Continuing from a stored state gives the rest of the trajectory"""
    nb, n = ctx.int(1, 3), ctx.int(1, 4)
    nt = ctx.pick(3, 5, 8, 9, 13, 18)
    nb, n, nt = odes.sizes(ctx, nb, n, nt)
    s = mild(ctx, nb, n)
    y0 = ctx.uni(-1, 1, nb, n)
    t = odes.grid(ctx, nt, nb, tmax=1.0, repeats=ctx.flip(0.2))
    o = odes.options(ctx, nt)
    o2 = odes.options(ctx, nt, method=o["method"])
    fn = ctx.pick(ode.odeint, ode.odeint_adjoint)
    y = fn(s, y0, t, throw_on_fail=True, **o).detach()
    if float(y.abs().max()) > 20:
        raise Skip
    cuts = sorted({0, nt - 1, *[ctx.int(1, nt - 1) for _ in range(ctx.int(1, 3))]})
    ctx.describe(terms=s.terms, nb=nb, n=n, nt=nt, cuts=cuts, options=[o, o2])
    ctx.sig(s.terms, nb, n, nt, tuple(cuts), tuple(sorted(o.items())))
    state = y0
    for a, b in zip(cuts[:-1], cuts[1:]):
        part = fn(s, state, t[a:b + 1], throw_on_fail=True, **o2).detach()
        ctx.close("continued states", part, y[a:b + 1], rtol=1e-6, atol=1e-7)
        ctx.saw("restarts")
        state = part[-1]


@case("P04", 300, 6000)
def standstill(ctx):
    """A repeated time repeats the state"""
    nb, n = ctx.int(1, 3), ctx.int(1, 4)
    nt = ctx.pick(4, 8, 9, 13)
    s = mild(ctx, nb, n)
    y0 = ctx.uni(-1, 1, nb, n)
    t = odes.grid(ctx, nt, nb, tmax=1.0)
    rep = torch.tensor(ctx.rng.random((nt - 1, nb)) < 0.4)
    inc = t.diff(dim=0)
    inc[rep] = 0.0
    t = torch.cat([t[:1], t[:1] + inc.cumsum(0)])
    o = odes.options(ctx, nt)
    y = ctx.pick(ode.odeint, ode.odeint_adjoint)(s, y0, t, throw_on_fail=True, **o).detach()
    if float(y.abs().max()) > 20:
        raise Skip
    ctx.describe(terms=s.terms, nb=nb, n=n, nt=nt, options=o)
    ctx.sig(s.terms, nb, n, nt, tuple(sorted(o.items())), rep.sum().item())
    ctx.saw("repeated times", int(rep.sum()))
    ctx.close("state at a repeated time", y[1:][rep], y[:-1][rep], rtol=1e-8, atol=1e-8)


@case("P04", 90, 2500)
def material(ctx):
    """Earlier material response is independent of later loads"""
    nb, nt = ctx.int(1, 3), ctx.pick(4, 8, 13)
    g = gens.Gen(ctx, batch=nb)
    obj, ref = g.model(flow=g.isokin() if ctx.flip(0.7) else None, dkind=ctx.pick("hl", "const", "none"))
    t, e, T = gens.history(ctx, nt, nb, emax=0.01)
    intg = models.ModelIntegrator(
        obj, use_adjoint=ctx.flip(), block_size=ctx.pick(1, 3, nt - 1, nt + 4), rtol=1e-15,
        atol=1e-8, miter=30, throw_on_fail=True)
    y = solved(intg.solve_strain, t, e, T).detach()
    if ref.damaged and float(y[..., -1].max()) > 0.5:
        raise Skip
    m = ctx.int(1, nt - 2)
    ctx.describe(model=ref.kind, nb=nb, nt=nt, cut=m)
    e2, T2 = e.clone(), T.clone()
    e2[m + 1:] = e[m] + 0.5 * (e[m + 1:] - e[m])
    T2[m + 1:] = T[m + 1:].flip(0)
    t2, kind = t.clone(), ctx.pick("loads", "short", "hold", "hold")
    if kind == "short":  # the rest of the loads follows at once
        t2[m + 1:] = t[m] + (t[m + 1:] - t[m]) * ctx.logu(1e-3, 1.0)
    elif kind == "hold":  # the rest is a very long hold
        t2[m + 1:] = t[m] + (t[m + 1:] - t[m]) * ctx.logu(1e2, 1e9)
        e2[m + 1:] = e[m]
    sc = y.abs().amax(0, keepdim=True)
    mode = ctx.cycle("strain", "stress", "both")
    ctx.sig(ref.kind, nb, nt, m, mode, kind)
    ctx.saw("later loads altered", nt - 1 - m)
    if mode == "strain":
        a = solved(intg.solve_strain, t2, e2, T2).detach()
        ctx.close("response before the altered load", a[: m + 1], y[: m + 1], rtol=1e-6,
                  scale=sc, atol=1e-6)
        return
    sig = y[..., 0]
    s2 = sig.clone()
    s2[m + 1:] = sig[m] + (0.0 if kind == "hold" else 0.9) * (sig[m + 1:] - sig[m])
    if mode == "stress":
        f = lambda d, temp, t: solved(intg.solve_stress, t, d, temp).detach()
    else:
        c = torch.tensor(ctx.rng.integers(0, 2, size=nb))
        f = lambda d, temp, t: solved(intg.solve_both, t, temp, torch.where(c == 0, *d), c).detach()
    if mode != "stress":
        sig, s2 = (e, sig), (e2, s2)
    a, b = f(sig, T, t), f(s2, T2, t2)
    sc = a.abs().amax(0, keepdim=True)
    ctx.close("response before the altered load", b[: m + 1], a[: m + 1], rtol=1e-6, scale=sc,
              atol=1e-6)
