"""P09: sparse block diagonal matrices agree in all their formats"""
import torch

from mon.common import case
from pyoptmat import chunktime

RULE = (
    "random sets of block diagonals converted to every format, judged against own assembly; a case "
    "counts if its (nblk, batch, block size, diagonals) signature is new"
)


@case("P09", 4000, 80000)
def formats(ctx):
    """dense = batched COO = unrolled CSR"""
    nblk, sbat, n = ctx.int(1, 9), ctx.int(1, 4), ctx.int(1, 4)
    allowed = list(range(-(nblk - 1), nblk))
    k = ctx.int(1, min(len(allowed), 5))
    diags = [allowed[i] for i in ctx.rng.choice(len(allowed), size=k, replace=False)]
    data = [ctx.normal(nblk - abs(d), sbat, n, n) for d in diags]
    if ctx.flip(0.2):
        data[0] = data[0] * (ctx.uni(0, 1, *data[0].shape) > 0.5)
    keep = [d.clone() for d in data]
    M = torch.zeros(sbat, nblk, n, nblk, n)
    for d, x in zip(diags, data):
        for i in range(nblk - abs(d)):
            r, c = (i - d, i) if d < 0 else (i, i + d)
            M[:, r, :, c, :] += x[i]
    M = M.reshape(sbat, nblk * n, nblk * n)
    ctx.describe(nblk=nblk, sbat=sbat, n=n, diags=diags)
    ctx.sig(nblk, sbat, n, tuple(diags))
    op = chunktime.SquareBatchedBlockDiagonalMatrix(data, diags)
    ctx.expect(tuple(op.shape) == (sbat, nblk * n, nblk * n), "shape", shape=list(op.shape))
    ctx.expect(op.n == nblk * n, "size", n=op.n)
    ctx.expect(op.nnz == sum(x.shape[0] * n * n for x in data), "number of stored entries", nnz=op.nnz)
    ctx.close("dense form", op.to_dense(), M, rtol=0, atol=0)
    coo = op.to_batched_coo()
    ctx.close("batched coordinate form", coo.to_dense().permute(2, 0, 1), M, rtol=0, atol=0)
    csr = op.to_unrolled_csr()
    ctx.expect(len(csr) == sbat, "one matrix per batch member")
    for i, c in enumerate(csr):
        ctx.close("compressed row form", c.to_dense(), M[i], rtol=0, atol=0)
    ctx.close("dense form on the second call", op.to_dense(), M, rtol=0, atol=0)
    for a, b in zip(data, keep):
        ctx.same("diagonals", a, b)
    ctx.saw("diagonals", len(diags))
