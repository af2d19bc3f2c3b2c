"""P24: simulated results are condensed experiment by experiment"""
import torch

from mon.common import case
from pyoptmat import experiments

RULE = (
    "random sets of experiments of random types with individual cycle labels, judged against a loop "
    "over the single experiments; a case counts if its (types, ntime, labels) signature is new"
)

NAMES = ["tensile", "relaxation", "strain_cyclic", "creep", "stress_cyclic", "abstract_tensile",
         "direct_data"]


def labels(ctx, typ, nt):
    """Cycle labels of one experiment"""
    if typ in (0, 6):
        return torch.zeros(nt).long()
    if typ in (1, 3):
        k = ctx.int(1, nt - 1)
        c = torch.zeros(nt).long()
        c[k:] = 1
        return c
    if typ == 5:
        a = ctx.int(1, nt - 2)
        b = ctx.int(a + 1, nt - 1)
        c = torch.zeros(nt).long()
        c[a:] = 1
        c[b:] = 2
        return c
    n = ctx.int(1, max(1, min(6, nt)))
    c = torch.sort(torch.tensor(ctx.rng.integers(0, n, size=nt)))[0]
    if ctx.flip(0.3) and n > 2:
        c[c == 1] = 2  # a label without any points
    return c


def one(typ, c, x):
    """Reference for a single experiment (lists of scalars)"""
    n = len(c)
    if typ in (0, 6):
        return list(x)
    zero = x[0] * 0.0
    if typ in (1, 3):
        hold = [i for i in range(n) if c[i] == 1]
        return [x[i] - x[hold[0]] if c[i] == 1 else zero for i in range(n)]
    if typ in (2, 4):
        return [max((x[j] for j in range(n) if c[j] == c[i]), key=float) for i in range(n)]
    first = [i for i in range(n) if c[i] == 1][0]
    top = max(x, key=float)
    return [zero if c[i] == 0 else (x[first] if c[i] == 1 else top) for i in range(n)]


@case("P24", 2500, 50000)
def convert(ctx):
    """Mixed sets of experiments"""
    nt, ne = ctx.int(3, 14), ctx.int(1, 8)
    if ctx.flip(0.3):
        types = torch.full((ne,), ctx.int(0, 6))
    else:
        types = torch.tensor(ctx.rng.integers(0, 7, size=ne))
    cyc = torch.stack([labels(ctx, int(t), nt) for t in types], 1)
    x = ctx.normal(nt, ne) * ctx.logu(1e-3, 1e3)
    x = x - ctx.pick(0.0, 1.0, -1.0) * 3.0 * x.abs().max()  # all negative, all positive, mixed
    x.requires_grad_(True)
    ctx.describe(ntime=nt, types=types, cycles=cyc)
    ctx.sig(nt, tuple(types.tolist()), tuple(cyc.reshape(-1).tolist()))
    before = x.detach().clone()
    got = experiments.convert_results(x, cyc, types)
    want = torch.stack([torch.stack(one(int(types[j]), cyc[:, j].tolist(), list(x[:, j])))
                        for j in range(ne)], 1)
    for t in types.tolist():
        ctx.saw(f"experiments of type {NAMES[t]}")
    ctx.close("condensed results", got, want, rtol=1e-12, atol=1e-12 * float(before.abs().max()))
    ctx.same("raw results", x.detach(), before)
    W = ctx.normal(nt, ne)
    g = torch.autograd.grad((got * W).sum(), x)[0]
    r = torch.autograd.grad((want * W).sum(), x)[0]
    ctx.close("derivative of the condensed results", g, r, rtol=1e-10, atol=1e-10)
    p = torch.tensor(ctx.rng.permutation(ne))
    ctx.close("permuted experiments", experiments.convert_results(x[:, p], cyc[:, p], types[p]),
              want[:, p], rtol=1e-12, atol=1e-12 * float(before.abs().max()))


@case("P24", 60, 200)
def names(ctx):
    """Names, numbers and functions of the test types belong together"""
    nt = 6
    ctx.describe(case=ctx.index)
    ctx.sig(ctx.index)
    name = ctx.cycle(*NAMES)
    ctx.expect(experiments.exp_map[name] == NAMES.index(name), "number of the test type", name=name)
    typ = NAMES.index(name)
    c = torch.stack([labels(ctx, typ, nt) for _ in range(3)], 1)
    x = ctx.normal(nt, 3)
    want = torch.stack([torch.stack(one(typ, c[:, j].tolist(), list(x[:, j]))) for j in range(3)], 1)
    ctx.close("by name", experiments.exp_fns[name](c, x), want, rtol=1e-12)
    ctx.expect(experiments.control_map == {"strain": 0, "stress": 1}, "control types")
