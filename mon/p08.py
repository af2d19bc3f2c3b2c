"""P08: batched block bidiagonal operators and their direct solvers"""
import torch

from mon.common import case
from pyoptmat import chunktime

RULE = (
    "random batched block bidiagonal systems x solver x memory layout, judged against a dense "
    "reference; a case counts if its (nblk, batch, block size, solver, layout) signature is new"
)


def dense(A, B):
    """Reference assembly"""
    nblk, sbat, n, _ = A.shape
    M = torch.zeros(sbat, nblk * n, nblk * n)
    for k in range(nblk):
        M[:, k * n:(k + 1) * n, k * n:(k + 1) * n] = A[k]
        if k > 0:
            M[:, k * n:(k + 1) * n, (k - 1) * n:k * n] = B[k - 1]
    return M


def layout(ctx, x):
    """The same values in another memory layout"""
    k = ctx.int(0, 3)
    if k == 1 and x.dim() >= 2:
        return x.transpose(-1, -2).contiguous().transpose(-1, -2)
    if k == 2:
        return x.transpose(0, 1).contiguous().transpose(0, 1)
    if k == 3 and x.dim() == 4:
        return x.permute(3, 2, 1, 0).contiguous().permute(3, 2, 1, 0)
    if k == 3:
        return torch.stack([x, x], -1)[..., 0]
    return x.contiguous()


def draw(ctx):
    """Blocks with a well conditioned operator"""
    nblk = ctx.pick(1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 21, 31, 32, 33, 40, 63, 64, 65)
    sbat, n = ctx.pick(1, 2, 3, 5), ctx.pick(1, 2, 3, 4, 6)
    style = ctx.pick("general", "general", "identity", "pivoting", "negI")
    if style == "identity":
        A = torch.eye(n).expand(nblk, sbat, n, n)
    elif style == "pivoting":
        P = torch.stack([torch.eye(n)[torch.tensor(ctx.rng.permutation(n))]
                         for _ in range(nblk * sbat)]).reshape(nblk, sbat, n, n)
        A = P * ctx.uni(1.0, 2.0, nblk, sbat, 1, 1) + 0.1 / n * ctx.normal(nblk, sbat, n, n)
    else:
        A = torch.eye(n) * ctx.uni(1.0, 2.0, nblk, sbat, 1, 1) + 0.3 / n * ctx.normal(nblk, sbat, n, n)
    if style == "negI":
        B = -torch.eye(n).expand(nblk - 1, sbat, n, n)
    else:
        B = ctx.normal(nblk - 1, sbat, n, n) * ctx.uni(0.1, 0.9) / n ** 0.5
    return nblk, sbat, n, style, A, B


def solver(ctx, nblk):
    """A factory and its name"""
    k = ctx.cycle("thomas", "pcr", "hybrid", "hybrid")
    if k == "thomas":
        return k, chunktime.BidiagonalThomasFactorization
    if k == "pcr":
        return k, chunktime.BidiagonalPCRFactorization
    m = ctx.pick(0, 1, 2, 3, 4, 5, 7, 8, 9, 16, nblk, 100)
    return f"hybrid{m}", lambda A, B: chunktime.BidiagonalHybridFactorization(A, B, min_size=m)


@case("P08", 5000, 100000)
def solve(ctx):
    """Solution, reuse, inputs untouched, layouts"""
    nblk, sbat, n, style, A, B = draw(ctx)
    name, make = solver(ctx, nblk)
    M = dense(A, B)
    if style in ("pivoting", "general", "negI"):
        A, B = layout(ctx, A), layout(ctx, B)
    A0, B0 = A.clone(), B.clone()
    ctx.describe(nblk=nblk, sbat=sbat, n=n, solver=name, style=style)
    ctx.sig(nblk, sbat, n, name, style, A.stride())
    op = make(A, B)
    ctx.expect(tuple(op.shape) == (sbat, nblk * n, nblk * n), "operator shape", shape=list(op.shape))
    for _ in range(2):
        v = layout(ctx, ctx.normal(sbat, nblk * n))
        v0 = v.clone()
        x = op(v)
        ref = torch.linalg.solve(M, v0.unsqueeze(-1)).squeeze(-1)
        sc = ref.abs().amax(-1, keepdim=True) + 1e-12
        ctx.close(f"solution by {name}", x, ref, rtol=1e-8, scale=sc, atol=1e-12)
        ctx.same("right hand side after the solve", v, v0)
        w = layout(ctx, ctx.normal(nblk, sbat, n, 1))
        w0 = w.clone()
        x = op.matvec(w)
        ref = torch.linalg.solve(M, w0.squeeze(-1).transpose(0, 1).flatten(1).unsqueeze(-1))
        ref = ref.reshape(sbat, nblk, n, 1).transpose(0, 1)
        sc = ref.abs().amax((0, 2), keepdim=True) + 1e-12
        ctx.close(f"blocked solution by {name}", x, ref, rtol=1e-8, scale=sc, atol=1e-12)
        ctx.same("blocked right hand side after the solve", w, w0)
    ctx.same("diagonal blocks after the solve", A, A0)
    ctx.same("off diagonal blocks after the solve", B, B0)
    ctx.saw("solves", 4)


@case("P08", 1500, 20000)
def forward(ctx):
    """The forward operator multiplies; its inverse undoes it"""
    nblk, sbat, n, style, A, B = draw(ctx)
    A, B = A.contiguous(), B.contiguous()
    name, make = solver(ctx, nblk)
    M = dense(A, B)
    A0, B0 = A.clone(), B.clone()
    ctx.describe(nblk=nblk, sbat=sbat, n=n, solver=name, style=style)
    ctx.sig(nblk, sbat, n, name, style)
    op = chunktime.BidiagonalForwardOperator(A, B, inverse_operator=make)
    v = ctx.normal(sbat, nblk * n)
    v0 = v.clone()
    b = op(v)
    want = torch.bmm(M, v0.unsqueeze(-1)).squeeze(-1)
    ctx.close("product", b, want, rtol=1e-10, scale=want.abs().max() + 1, atol=1e-12)
    ctx.close("dense form", op.to_diag().to_dense(), M, rtol=1e-14)
    x = op.inverse()(b)
    ctx.close("inverse of the product", x, v0, rtol=1e-7, scale=v0.abs().max() + 1, atol=1e-10)
    for meth in ("direct", "dense"):
        r = ctx.normal(sbat, nblk * n)
        s = chunktime.ChunkTimeOperatorSolverContext(meth).solve(op, r.clone())
        ref = torch.linalg.solve(M, r.unsqueeze(-1)).squeeze(-1)
        ctx.close(f"{meth} solve", s, ref, rtol=1e-8, scale=ref.abs().max() + 1e-12, atol=1e-12)
    ctx.same("operand", v, v0)
    ctx.same("diagonal blocks", op.A, A0)
    ctx.same("off diagonal blocks", op.B, B0)
    ctx.saw("products")


@case("P08", 500, 8000)
def differentiable(ctx):
    """Derivatives through the direct solvers"""
    nblk, sbat, n, style, A, B = draw(ctx)
    if nblk > 17:
        nblk = ctx.int(1, 17)
        A, B = A[:nblk], B[:nblk - 1]
    name, make = solver(ctx, nblk)
    A = A.clone().contiguous().requires_grad_(True)
    B = B.clone().contiguous().requires_grad_(True)
    v = ctx.normal(sbat, nblk * n).requires_grad_(True)
    W = ctx.normal(sbat, nblk * n)
    ctx.describe(nblk=nblk, sbat=sbat, n=n, solver=name, style=style)
    ctx.sig(nblk, sbat, n, name, style)
    got = torch.autograd.grad((W * make(A, B)(v)).sum(), [A, B, v], materialize_grads=True)
    ref = torch.linalg.solve(dense(A, B), v.unsqueeze(-1)).squeeze(-1)
    want = torch.autograd.grad((W * ref).sum(), [A, B, v], materialize_grads=True)
    for nme, g, w in zip(("diagonal", "off diagonal", "right hand side"), got, want):
        ctx.close(f"derivative of the {name} solution with respect to {nme}", g, w, rtol=1e-7,
                  scale=(w.abs().max() if w.numel() else torch.tensor(0.0)) + 1e-6, atol=1e-10)
