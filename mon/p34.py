"""P34: plots of the variance"""
import warnings

import numpy as np
import torch

from mon.common import case
from pyoptmat import utility

RULE = (
    "random sets of curves, the plotted lines and bands read back from the figure and judged point by "
    "point; a case counts if its (shapes, alpha) signature is new"
)


def band(p, x):
    """Lower and upper limit of a filled band at each x"""
    v = p.get_paths()[0].vertices
    lo, hi = [], []
    for q in x:
        y = v[v[:, 0] == q, 1]
        lo.append(y.min())
        hi.append(y.max())
    return np.array(lo), np.array(hi)


@case("P34", 240, 2000)
def variance(ctx):
    """Mean lines and percentile bands"""
    import matplotlib.pyplot as plt

    nt = ctx.int(2, 12)
    n1, n2 = (ctx.pick(ctx.int(1, 8), ctx.int(9, 25), ctx.int(26, 120)) for _ in range(2))
    alpha = ctx.pick(None, 0.05, 0.1, 0.25, 0.4)
    x = torch.cumsum(ctx.uni(1e-4, 1e-2, nt), 0)
    true = ctx.normal(nt, n1) * ctx.logu(0.1, 100.0) + ctx.uni(-100, 100)
    calc = ctx.normal(nt, n2) * ctx.logu(0.1, 100.0) + ctx.uni(-100, 100)
    keep = [v.clone() for v in (x, true, calc)]
    ctx.describe(points=nt, samples=[n1, n2], alpha=alpha)
    ctx.sig(nt, n1, n2, alpha)
    plt.close("all")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        utility.visualize_variance(x, true, calc, **({} if alpha is None else {"alpha": alpha}))
    for a, b in zip((x, true, calc), keep):
        ctx.same("arguments", a, b)
    ctx.expect(len(plt.get_fignums()) == 1, "number of figures", got=len(plt.get_fignums()))
    ax = plt.gcf().axes[0]
    a = 0.05 if alpha is None else alpha
    for label, data in (("Actual", true.numpy()), ("Predicted", calc.numpy())):
        lines = [q for q in ax.lines if label.lower() in q.get_label().lower()]
        bands = [q for q in ax.collections if label.lower() in q.get_label().lower()]
        ctx.expect(len(lines) == 1 and len(bands) == 1, f"{label}: one line and one band")
        ctx.close("strains", np.asarray(lines[0].get_xdata()), x.numpy(), rtol=1e-12)
        ctx.close("mean", np.asarray(lines[0].get_ydata()), data.mean(1), rtol=1e-9, atol=1e-9)
        lo, hi = band(bands[0], x.numpy())
        n = data.shape[1]
        for i in range(nt):
            below, above = int((data[i] < lo[i] - 1e-9).sum()), int((data[i] > hi[i] + 1e-9).sum())
            ctx.expect(lo[i] <= hi[i], "limits in order")
            ctx.expect(abs(below - a * n) <= 2.0, f"{label}: share of samples below the band",
                       below=below, samples=n, alpha=a)
            ctx.expect(abs(above - a * n) <= 2.0, f"{label}: share of samples above the band",
                       above=above, samples=n, alpha=a)
            ctx.expect(np.abs(data[i] - lo[i]).min() < 1e-9 and np.abs(data[i] - hi[i]).min() < 1e-9,
                       f"{label}: limits are samples")
        ctx.saw("points of bands", nt)
    plt.close("all")
