"""P23: time series interpolation is piecewise linear"""
import numpy as np
import torch

from mon.common import case
from pyoptmat import utility

RULE = (
    "random batched time series evaluated at and between their points, against numpy; a case counts "
    "if its (interpolator, shapes, repetition) signature is new"
)


def series(ctx, nt, nb, same=False):
    """Times and values"""
    dt = ctx.logu(1e-3, 1e2, nt - 1, 1 if same else nb)
    t = torch.cat([torch.zeros(1, dt.shape[1]), dt.cumsum(0)]) + ctx.uni(-50.0, 50.0, dt.shape[1])
    return t.expand(nt, nb).contiguous(), ctx.normal(nt, nb) * 10.0


def within(ctx, t, n, hit=0.4):
    """n query times per series, some exactly at points, first and last included sometimes"""
    nt, nb = t.shape
    f = ctx.uni(0.0, 1.0, n, nb)
    q = t[0] + f * (t[-1] - t[0])
    m = torch.tensor(ctx.rng.random((n, nb)) < hit)
    i = torch.tensor(ctx.rng.integers(0, nt, size=(n, nb)))
    q = torch.where(m, t.gather(0, i), q)
    return torch.minimum(torch.maximum(q, t[0]), t[-1]), int(m.sum())


def reference(t, v, q):
    """numpy, one series at a time"""
    return torch.stack([torch.tensor(np.interp(q[:, j].numpy(), t[:, j].numpy(), v[:, j].numpy()))
                        for j in range(t.shape[1])], 1)


@case("P23", 4000, 80000)
def interpolate(ctx):
    """All the interpolators"""
    kind = ctx.cycle("arbitrary", "arbitrary1", "batch", "cheater", "fnbatch", "fnsingle")
    nt, nb = ctx.int(2, 12), ctx.int(1, 6)
    t, v = series(ctx, nt, nb, same=kind in ("cheater", "fnsingle"))
    n = ctx.pick(1, 2, 3, nt, nt + 3) if kind == "arbitrary" else 1
    q, hits = within(ctx, t, n)
    ctx.describe(kind=kind, ntime=nt, nbatch=nb, queries=n)
    ctx.sig(kind, nt, nb, n, hits > 0)
    ctx.saw("points hit", hits)
    tol = dict(rtol=1e-9, atol=1e-9)
    if kind == "arbitrary":
        f = utility.ArbitraryBatchTimeSeriesInterpolator(t, v)
        ctx.close(kind, f(q), reference(t, v, q), **tol)
        ctx.close("own points", f(t), v, rtol=1e-10, atol=1e-9)
        return
    if kind in ("cheater", "fnsingle"):
        q = q[:, :1].expand(1, nb).contiguous()
    want = reference(t, v, q)[0]
    if kind == "arbitrary1":
        got = utility.ArbitraryBatchTimeSeriesInterpolator(t, v)(q[0])
    elif kind == "batch":
        got = utility.BatchTimeSeriesInterpolator(t, v)(q[0])
    elif kind == "cheater":
        got = utility.CheaterBatchTimeSeriesInterpolator(t, v)(q[0])
    elif kind == "fnbatch":
        got = utility.timeseries_interpolate_batch_times(t, v, q[0])
    else:
        got = utility.timeseries_interpolate_single_times(t[:, 0].contiguous(), v, q[0, 0])
    ctx.close(kind, got, want, **tol)


@case("P23", 1000, 20000)
def repeated(ctx):
    """Series in which times are repeated"""
    nt, nb = ctx.int(3, 12), ctx.int(1, 5)
    t, v = series(ctx, nt, nb)
    inc = t.diff(dim=0)
    rep = torch.tensor(ctx.rng.random((nt - 1, nb)) < 0.4)
    inc[rep] = 0.0
    t = torch.cat([t[:1], t[:1] + inc.cumsum(0)])
    if bool((t[0] == t[-1]).any()):
        t[-1] += 1.0
        rep[-1] = t.diff(dim=0)[-1] == 0
    for i in range(nt - 1):
        v[i + 1] = torch.where(t[i + 1] == t[i], v[i], v[i + 1])
    ctx.describe(ntime=nt, nbatch=nb, repeated=int(rep.sum()))
    ctx.sig(nt, nb, int(rep.sum()))
    f = utility.ArbitraryBatchTimeSeriesInterpolator(t, v)
    ctx.close("own points", f(t), v, rtol=1e-9, atol=1e-9)
    q, _ = within(ctx, t, ctx.int(1, 5))
    # numpy takes any of the equal values
    ctx.close("any point", f(q), reference(t, v, q), rtol=1e-9, atol=1e-9)
    for j in range(nb):
        g = utility.ArbitraryBatchTimeSeriesInterpolator(t[:, j:j + 1], v[:, j:j + 1])
        ctx.close("one series alone", g(q[:, j:j + 1]), f(q)[:, j:j + 1], rtol=1e-12, atol=1e-12)
