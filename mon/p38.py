"""P38: second derivatives by backpropagation"""
import torch

from mon import odes
from mon.common import case, Skip
from mon.p02 import mild, loss_of
from pyoptmat import ode, solvers

RULE = (
    "second derivatives of random losses by backpropagation against Richardson checked differences of exact first "
    "derivatives; a case counts if its (problem, options) signature is new and entries were decided"
)


def directional(ctx, what, grads, ps, got, step, rtol=1e-5):
    """got: derivative of w . grads() along v for (w, v) drawn here by the caller"""
    v, w, hv = got
    values = []

    def g(h):
        with torch.no_grad():
            for p, d in zip(ps, v):
                p.add_(h * d)
        r = sum((a * b).sum() for a, b in zip(grads(), w)).detach()
        with torch.no_grad():
            for p, d in zip(ps, v):
                p.sub_(h * d)
        values.append(abs(float(r)))
        return r

    est = []
    for h in (step, step / 2):
        est.append((8 * (g(h) - g(-h)) - (g(2 * h) - g(-2 * h))) / (12 * h))
    err = float((est[0] - est[1]).abs())
    scale = abs(float(est[1])) + 1e-3 * max(values)
    if not err <= 1e-6 * scale:
        ctx.saw("undecided")
        return
    ctx.saw("second derivatives judged")
    ctx.close(what, hv.detach(), est[1], rtol=rtol, atol=rtol * scale)


def hessian(loss, ps, v, w):
    """w . d(dloss/dp)/dp . v"""
    z = lambda gs: [torch.zeros_like(p) if g is None else g for g, p in zip(gs, ps)]
    gs = z(torch.autograd.grad(loss, ps, create_graph=True, allow_unused=True))
    s = sum((a * b).sum() for a, b in zip(gs, w))
    if not s.requires_grad:
        return torch.zeros(())
    return sum((a * b).sum() for a, b in zip(z(torch.autograd.grad(s, ps, allow_unused=True)), v))


@case("P38", 700, 20000)
def integrals(ctx):
    """User systems"""
    nb, n = ctx.pick(1, 2, 3), ctx.pick(1, 2, 3)
    nt = ctx.pick(2, 3, 4, 6, 9)
    s = mild(ctx, nb, n, frozen=ctx.flip(0.3), unused=ctx.flip(0.2))
    t = odes.grid(ctx, nt, nb, tmax=1.0, repeats=ctx.flip(0.2))
    o = odes.options(ctx, nt)
    o["rtol"] = o["atol"] = 1e-12
    L = loss_of(ctx, (nt, nb, n))
    y0 = ctx.uni(-1, 1, nb, n).requires_grad_(True)
    ps = [p for p in s.parameters() if p.requires_grad] + [y0]
    v, w = [[ctx.normal(*p.shape) for p in ps] for _ in range(2)]
    ctx.describe(terms=s.terms, nb=nb, n=n, nt=nt, options=o)
    ctx.sig(s.terms, nb, n, nt, tuple(sorted(o.items())))
    y = ode.odeint(s, y0, t, throw_on_fail=True, **o)
    if float(y.detach().abs().max()) > 20:
        raise Skip
    hv = hessian(L(y), ps, v, w)

    def grads():
        r = odes.reference(s, y0, t, o["method"], grad=True)
        if r is None:
            raise Skip
        gs = torch.autograd.grad(L(r), ps, allow_unused=True)
        return [torch.zeros_like(p) if g is None else g for g, p in zip(gs, ps)]

    directional(ctx, "second derivative", grads, ps, (v, w, hv), 2e-3)


@case("P38", 400, 10000)
def implicit(ctx):
    """Solutions and Jacobians of the nonlinear solvers"""
    n, sh = ctx.int(1, 3), ctx.pick((1,), (3,), (2, 2))
    A = torch.diag_embed(ctx.uni(1.0, 3.0, *sh, n)) + 0.2 / n * ctx.normal(*sh, n, n)
    p = [ctx.uni(0.5, 1.5, *sh, n).requires_grad_(True), ctx.normal(*sh, n).requires_grad_(True)]

    def rj(x):
        c, b = p
        R = (A @ x[..., None])[..., 0] + c * x ** 3 + c ** 2 * torch.tanh(x) - b * (1 + 0.1 * b)
        return R, A + torch.diag_embed(3 * c * x ** 2 + c ** 2 * (1 - torch.tanh(x) ** 2))

    fn = ctx.pick(solvers.newton_raphson, solvers.newton_raphson_bt)
    x0 = ctx.normal(*sh, n) * ctx.pick(0.0, 0.5)
    wx, wj = ctx.normal(*sh, n), ctx.normal(*sh, n, n)
    which = ctx.pick("solution", "jacobian")
    v, w = [[ctx.normal(*q.shape) for q in p] for _ in range(2)]
    ctx.describe(solver=fn.__name__, shape=list(sh), n=n, which=which)
    ctx.sig(fn.__name__, sh, n, which)
    run = lambda: fn(rj, x0, rtol=1e-12, atol=1e-13)

    def exact():
        """Newton steps with graph from the solution: exact derivatives"""
        x = run()[0].detach()
        for _ in range(4):
            R, J = rj(x)
            x = x - torch.linalg.solve(J, R[..., None])[..., 0]
        return x, rj(x)[1]

    def loss(r):
        x, J = r
        return (torch.sin(x) * wx).sum() if which == "solution" else (J * wj).sum() + (x * wx).sum()

    g1 = torch.autograd.grad(loss(run()), p)
    g2 = torch.autograd.grad(loss(exact()), p)
    for a, b in zip(g1, g2):
        ctx.close(f"first derivative ({which})", a, b, rtol=1e-7, atol=1e-9)
    if which == "solution":
        ctx.close("second derivative", hessian(loss(run()), p, v, w), hessian(loss(exact()), p, v, w),
                  rtol=1e-6, atol=1e-8)
        ctx.saw("second derivatives judged")
