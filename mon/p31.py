"""P31: finite differences and batched tensor helpers"""
import torch

from mon.common import case
from pyoptmat import utility

RULE = (
    "random smooth functions and tensors in batches of random shape, judged elementwise; a case counts "
    "if its (helper, shapes) signature is new"
)


def function(ctx, n, out):
    """A smooth function of the trailing dimensions and its derivative.  n, out: () or (k,...)"""
    a, b = ctx.uni(0.5, 1.5, *out, *n) if out + n else torch.tensor(ctx.uni(0.5, 1.5)), ctx.uni(0.1, 0.9)
    no, nn_ = len(out), len(n)

    def spread(x):
        return x.reshape(x.shape[: x.dim() - nn_] + (1,) * no + tuple(n))

    def f(x):
        z = a * (torch.sin(b * spread(x)) + 0.3 * spread(x) ** 2)
        return z.flatten(z.dim() - nn_).sum(-1) if nn_ else z

    def df(x):
        return a * (b * torch.cos(b * spread(x)) + 0.6 * spread(x))

    return f, df


@case("P31", 4000, 80000)
def differences(ctx):
    """Finite difference derivatives approximate the derivative of every batch member"""
    kind = ctx.cycle("batch", "batch", "new", "old")
    eps = ctx.pick(None, 1e-6, 1e-7, 1e-5)
    kw = {} if eps is None else {"eps": eps}
    h = eps or 1e-6
    bs = tuple(ctx.int(1, 4) for _ in range(ctx.int(1, 3) if kind == "batch" else 1))
    n = ctx.pick((), (ctx.int(1, 5),))
    out = ctx.pick((), (ctx.int(1, 4),), (2, 3))
    if ctx.flip(0.25):
        n = (2, ctx.int(1, 3))
    x = ctx.normal(*bs, *n) * ctx.logu(0.1, 10.0, *bs, *n)
    if ctx.flip(0.3):
        x[torch.tensor(ctx.rng.random(tuple(x.shape)) < 0.3)] = 0.0
    if ctx.flip(0.3):
        x = torch.where(torch.tensor(ctx.rng.random(tuple(x.shape)) < 0.3), x * ctx.logu(1e-14, 1e-6), x)
    f, df = function(ctx, n, out)
    x0 = x.clone()
    ctx.describe(kind=kind, batch=bs, argument=n, value=out, eps=eps)
    ctx.sig(kind, bs, n, out, eps)
    want = df(x)
    if kind == "batch":
        nbd = {} if len(bs) == 1 and ctx.flip() else {"nbatch_dim": len(bs)}
        got = utility.batch_differentiate(f, x, **nbd, **kw)
    elif kind == "new":
        got = utility.new_differentiate(f, x, **kw)
        want = want.reshape(bs + (out or (1,)) + (n or (1,)))
    else:
        got = utility.differentiate(f, x, **kw)
    # truncation and cancellation of a one sided difference
    size = 1.0 + float(x.abs().max())
    tol = 3.0 * h * size * 5 + 1e-14 * (5 + f(x).abs().max().item()) / h / 0.05
    ctx.close("finite difference", got, want, rtol=20 * h, atol=tol)
    ctx.same("point of differentiation", x, x0)


@case("P31", 2000, 40000)
def tensors(ctx):
    """Batched helpers"""
    kind = ctx.cycle("mbmm", "heaviside", "macaulay", "add_id")
    bs = tuple(ctx.int(1, 4) for _ in range(ctx.int(0, 3)))
    if kind == "mbmm":
        i, k, j = ctx.int(1, 5), ctx.int(1, 5), ctx.int(1, 5)
        A, B = ctx.normal(*bs, i, k), ctx.normal(*bs, k, j)
        got, want = utility.mbmm(A, B), torch.matmul(A, B)
    elif kind == "add_id":
        b, i = ctx.int(1, 6), ctx.int(1, 5)
        A = ctx.normal(b, i, i)
        keep = A.clone()
        got, want = utility.add_id(A), torch.stack([keep[q] + torch.eye(i) for q in range(b)])
        ctx.same("argument", A, keep)
        bs = (b, i)
    else:
        x = ctx.normal(*bs, ctx.int(1, 5)) * ctx.logu(1e-6, 1e3)
        x[torch.tensor(ctx.rng.random(tuple(x.shape)) < 0.2)] = 0.0
        got = getattr(utility, kind)(x)
        pos = torch.where(x > 0, torch.ones_like(x), torch.zeros_like(x))
        if kind == "heaviside":
            want = torch.where(x == 0, torch.full_like(x, 0.5), pos)
        else:
            want = x * pos
    ctx.describe(kind=kind, batch=bs, shape=list(got.shape))
    ctx.sig(kind, bs, tuple(got.shape))
    ctx.close(kind, got, want, rtol=1e-12, atol=1e-12)
