"""P02: solver options are transparent"""
import torch

from mon import odes
from mon.common import case, Skip
from pyoptmat import ode

RULE = (
    "one random problem integrated (and differentiated) under several option sets; a case counts "
    "if the (problem shape, option sets) signature is new and all runs were compared"
)


def mild(ctx, nb, n, **kw):
    """Systems with a unique solution of the discrete equations"""
    terms = [t for t in ("lin", "tanh", "cube", "sin", "ext") if ctx.flip(0.6)] or ["cube", "sin"]
    return odes.System(ctx, nb, n, terms=terms, stiff=ctx.logu(0.3, 1.5), **kw)


def loss_of(ctx, shape):
    """A random differentiable loss"""
    W = ctx.normal(*shape)
    k = ctx.int(0, 4)
    if k == 0:
        return lambda y: (W * y).sum()
    if k == 1:
        return lambda y: (W * y ** 2).sum()
    if k == 2:
        return lambda y: (W[-1] * y[-1]).sum()
    if k == 3:
        Wp = W.permute(2, 1, 0).contiguous()
        return lambda y: (Wp * torch.sin(y.permute(2, 1, 0))).sum()
    i = ctx.int(0, shape[0] - 1)
    return lambda y: torch.linalg.norm(y[i] + 3.0) + (W[0] * y[0]).sum()


def grads(fn, s, y0, t, L, **o):
    """Trajectory and gradients"""
    z = y0.clone().requires_grad_(True)
    ps = [p for p in s.parameters() if p.requires_grad]
    y = fn(s, z, t, extra_params=s.extra_tensors or None, **o)
    g = torch.autograd.grad(L(y), ps + s.extra_tensors + [z], allow_unused=True)
    return y.detach(), [torch.zeros_like(p) if v is None else v
                        for p, v in zip(ps + s.extra_tensors + [z], g)]


@case("P02", 900, 20000)
def same_answer(ctx):
    """Different options, same trajectory and same gradient"""
    nb, n = ctx.pick(1, 2, 3), ctx.pick(1, 2, 3, 4)
    nt = ctx.pick(2, 4, 6, 9, 10, 12, 16, 17, 24, 34)
    nb, n, nt = odes.sizes(ctx, nb, n, nt)
    s = mild(ctx, nb, n)
    y0 = ctx.uni(-1, 1, nb, n)
    t = odes.grid(ctx, nt, nb, tmax=1.0, repeats=ctx.flip(0.2))
    method = ctx.pick("backward-euler", "forward-euler")
    L = loss_of(ctx, (nt, nb, n))
    fn = ctx.pick(ode.odeint_adjoint, ode.odeint_adjoint, ode.odeint)
    base = dict(method=method, block_size=1, rtol=1e-10, atol=1e-11)
    y1, g1 = grads(fn, s, y0, t, L, **base)
    if float(y1.abs().max()) > 20:
        raise Skip
    sets = []
    for i in range(4):
        o = odes.options(ctx, nt, method=method)
        if i == 0:
            o.update(direct_solve_method="pcr", linear_solve_method="direct")
        if i == 1:
            o.update(direct_solve_method="hybrid", linear_solve_method="direct",
                     direct_solve_min_size=ctx.pick(0, 1, 2, 3, 4, 5, 8))
        if i == 2:
            o.update(guess_type="previous")
        o.update(rtol=1e-10, atol=1e-11)
        sets.append(o)
    ctx.describe(terms=s.terms, nb=nb, n=n, nt=nt, method=method, fn=fn.__name__, sets=sets)
    ctx.sig(s.terms, nb, n, nt, method, [tuple(sorted(o.items())) for o in sets])
    gs = max([1.0] + [float(g.abs().max()) for g in g1])
    rt = 1e-6
    for o in sets:
        y, g = grads(fn, s, y0, t, L, throw_on_fail=True, **o)
        ctx.saw("option sets compared")
        ctx.close("trajectory", y, y1, rtol=1e-7, atol=1e-8, options=o)
        for a, b in zip(g, g1):
            ctx.close("gradient", a, b, rtol=rt, atol=rt * gs, options=o)


@case("P02", 80, 400)
def unknown_options(ctx):
    """Unknown option values are rejected instead of being replaced by something else"""
    s = mild(ctx, 2, 2)
    t = odes.grid(ctx, 4, 2)
    key = ctx.cycle("method", "linear_solve_method", "direct_solve_method", "guess_type")
    ctx.describe(option=key)
    ctx.sig(key, s.terms)
    try:
        ctx.pick(ode.odeint, ode.odeint_adjoint)(s, ctx.normal(2, 2), t, **{key: "nonsense"})
    except (ValueError, KeyError):
        ctx.saw("rejections")
        return
    ctx.fail(f"unknown value for {key} was accepted")
