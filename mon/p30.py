"""P30: neural network rates with forcing"""
import torch
from torch import nn

from mon import odes
from mon.common import case, Skip
from mon.p02 import loss_of
from mon.p05 import zeros_for_none
from pyoptmat import neuralode, ode, utility

RULE = (
    "random networks with random forcing at random batched states and times, and whole integrations of "
    "them; a case counts if its (sizes, batch shape, options) signature is new"
)


class Net(nn.Module):
    """A small network on the last dimension"""

    def __init__(self, ctx, n, m, kind):
        super().__init__()
        k = ctx.int(1, 6)
        self.kind = kind
        self.W1 = nn.Parameter(ctx.normal(k, n + m) * 0.6)
        self.b1 = nn.Parameter(ctx.normal(k) * 0.3)
        self.W2 = nn.Parameter(ctx.normal(n, k) * 0.6)
        self.D = nn.Parameter(-ctx.uni(0.2, 1.0, n))
        self.n = n

    def forward(self, x):
        z = x @ self.W1.t() + self.b1
        z = torch.tanh(z) if self.kind == "tanh" else torch.sigmoid(z) * z
        return z @ self.W2.t() + self.D * x[..., : self.n]

    def jacobian(self, x):
        """By hand, with respect to all the inputs"""
        z = x @ self.W1.t() + self.b1
        if self.kind == "tanh":
            d = 1 - torch.tanh(z) ** 2
        else:
            s = torch.sigmoid(z)
            d = s + z * s * (1 - s)
        J = torch.einsum("ij,...j,jk->...ik", self.W2, d, self.W1)
        P = torch.zeros(self.n, x.shape[-1], device=x.device)
        P[:, : self.n] = torch.diag(self.D)
        return J + P


class Both(nn.Module):
    """The reference system: rate and the derivative by hand"""

    def __init__(self, net, force):
        super().__init__()
        self.net, self.force = net, force

    def forward(self, t, y):
        x = torch.cat([y, self.force(t)], -1)
        return self.net(x), self.net.jacobian(x)[..., : self.net.n]


def draw(ctx):
    """Network and forcing"""
    n, m = ctx.int(1, 4), ctx.int(1, 3)
    net = Net(ctx, n, m, ctx.pick("tanh", "swish"))
    w, a = ctx.uni(0.5, 3.0, m), ctx.normal(m)
    return net, (lambda t: a * torch.sin(w * t[..., None])), n, m


@case("P30", 500, 10000)
def rate(ctx):
    """Rate and Jacobian for any leading dimensions"""
    net, force, n, m = draw(ctx)
    f = neuralode.NeuralODE(net, force)
    # the same object serves states of any leading dimensions, one after another
    for _ in range(ctx.int(1, 3)):
        judge(ctx, f, net, force, n, m)


def judge(ctx, f, net, force, n, m):
    """One evaluation"""
    lead = tuple(ctx.int(1, 4) for _ in range(ctx.int(1, 3)))
    t, y = ctx.uni(-5, 5, *lead), ctx.normal(*lead, n)
    t0, y0 = t.clone(), y.clone()
    ctx.describe(n=n, forces=m, lead=lead)
    ctx.sig(n, m, lead, net.kind)
    val, J = f(t, y)
    ref, Jr = Both(net, force)(t, y)
    ctx.close("rate", val, ref, rtol=1e-10, atol=1e-12)
    ctx.close("derivative of the rate with respect to the state", J, Jr, rtol=1e-9, atol=1e-11)
    ctx.same("times", t, t0)
    ctx.same("states", y, y0)
    ps = list(net.parameters())
    ctx.expect({id(p) for p in f.parameters()} == {id(p) for p in ps}, "trainable parameters")
    A, B = ctx.normal(*val.shape), ctx.normal(*J.shape)
    g = torch.autograd.grad((A * val).sum() + (B * J).sum(), ps)
    r = torch.autograd.grad((A * ref).sum() + (B * Jr).sum(), ps)
    for a, b in zip(g, r):
        ctx.close("derivative with respect to the network", a, b, rtol=1e-8,
                  atol=1e-9 * (1 + float(b.abs().max())))


@case("P30", 160, 5000)
def integrate(ctx):
    """Trajectories and gradients of integrated networks"""
    net, force, n, m = draw(ctx)
    nb, nt = ctx.int(1, 3), ctx.pick(2, 4, 6, 9)
    t = odes.grid(ctx, nt, nb, tmax=1.0)
    o = odes.options(ctx, nt)
    y0 = ctx.uni(-1, 1, nb, n).requires_grad_(True)
    f = neuralode.NeuralODE(net, force)
    ref = odes.reference(Both(net, force), y0, t, o["method"], grad=True)
    if ref is None or float(ref.detach().abs().max()) > 20:
        raise Skip
    ps = [y0] + list(net.parameters())
    L = loss_of(ctx, (nt, nb, n))
    want = zeros_for_none(torch.autograd.grad(L(ref), ps, allow_unused=True), ps)
    sc = max([1.0] + [float(g.abs().max()) for g in want])
    ctx.describe(n=n, forces=m, nb=nb, nt=nt, options=o)
    ctx.sig(n, m, nb, nt, tuple(sorted(o.items())))
    for fn in (ode.odeint_adjoint, ode.odeint):
        y = fn(f, y0, t, throw_on_fail=True, **o)
        ctx.close("trajectory", y, ref, rtol=1e-6, atol=1e-7)
        got = zeros_for_none(torch.autograd.grad(L(y), ps, allow_unused=True), ps)
        for g, w in zip(got, want):
            ctx.close(f"gradient through {fn.__name__}", g, w, rtol=1e-6, atol=1e-6 * sc)


@case("P30", 300, 6000)
def jacobians(ctx):
    """Batched Jacobians of functions of several vectors"""
    sizes = [ctx.int(1, 4) for _ in range(ctx.int(1, 3))]
    k = ctx.int(1, 4)
    Ws = [ctx.normal(k, s) for s in sizes]
    Qs = [ctx.normal(k, s) for s in sizes]

    def f(*xs):
        return sum(torch.tanh(x @ W.t()) + (x ** 2) @ Q.t() for x, W, Q in zip(xs, Ws, Qs)) * \
            torch.cos(xs[0][..., :1])

    which = ctx.pick(None, "some")
    args = tuple(range(len(sizes)))
    if which == "some":
        args = tuple(sorted(ctx.rng.permutation(len(sizes))[: ctx.int(1, len(sizes))].tolist()))
    fj = utility.jacobianize()(f) if which is None else utility.jacobianize(argnums=args)(f)
    for _ in range(ctx.int(1, 3)):
        jacobian(ctx, f, fj, Ws, Qs, args)


def jacobian(ctx, f, fj, Ws, Qs, args):
    """One evaluation"""
    lead = tuple(ctx.int(1, 4) for _ in range(ctx.int(0, 3)))
    sizes, k = [W.shape[1] for W in Ws], Ws[0].shape[0]
    xs = [ctx.normal(*lead, s) for s in sizes]
    val, Js = fj(*xs)
    ctx.describe(lead=lead, sizes=sizes, out=k, argnums=args)
    ctx.sig(lead, tuple(sizes), k, args)
    want = f(*xs)
    ctx.close("value", val, want, rtol=1e-12)
    ctx.expect(len(Js) == len(args), "number of Jacobians", got=len(Js))
    c, sn = torch.cos(xs[0][..., :1]), torch.sin(xs[0][..., 0])
    base = want / c
    for J, a in zip(Js, args):
        d = (1 - torch.tanh(xs[a] @ Ws[a].t()) ** 2)[..., None] * Ws[a] + \
            2 * Qs[a] * xs[a][..., None, :]
        d = d * c[..., None]
        if a == 0:
            d = d.clone()
            d[..., 0] -= base * sn[..., None]
        ctx.close(f"Jacobian with respect to argument {a}", J, d, rtol=1e-9, atol=1e-10)


@case("P30", 200, 4000)
def mixed(ctx):
    """Jacobians with respect to scalars, vectors and matrices of each member of a batch"""
    k, m = ctx.int(1, 3), ctx.int(1, 3)
    lead = tuple(ctx.int(1, 4) for _ in range(ctx.int(0, 2)))
    dims = {"a": (), "x": (m,), "A": (k, m)}
    order = ctx.pick("axA", "Axa", "xAa", "aAx", "Ax", "xA")
    W = ctx.normal(k, m)

    def f(*args):
        v = dict(zip(order, args))
        a = v["a"][..., None] if "a" in v else 0.7
        return torch.tanh(a * torch.einsum("...ij,...j->...i", v["A"] + W, v["x"]))

    args = [ctx.normal(*lead, *dims[c]) for c in order]
    keep = [a.clone() for a in args]
    which = tuple(sorted(ctx.rng.permutation(len(order))[: ctx.int(1, len(order))].tolist()))
    ctx.describe(order=order, lead=lead, sizes=[k, m], argnums=which)
    ctx.sig(order, lead, k, m, which)
    val, Js = utility.jacobianize(argnums=which)(f)(*args)
    ctx.close("value", val, f(*args), rtol=1e-12)
    ctx.expect(len(Js) == len(which), "number of Jacobians", got=len(Js))
    v = dict(zip(order, args))
    a = v["a"][..., None] if "a" in v else torch.tensor(0.7)
    B = v["A"] + W
    z = torch.einsum("...ij,...j->...i", B, v["x"])
    d = 1 - torch.tanh(a * z) ** 2
    eye = torch.eye(k)
    want = {
        "a": d * z, "x": (d * a)[..., None] * B,
        "A": (d * a)[..., None, None] * eye[:, :, None] * v["x"][..., None, None, :],
    }
    for J, i in zip(Js, which):
        ctx.close(f"Jacobian with respect to {order[i]}", J, want[order[i]].expand(lead + (k,) + dims[order[i]]),
                  rtol=1e-9, atol=1e-10)
    for x, y in zip(args, keep):
        ctx.same("argument", x, y)
