"""P25: generated test histories are the requested tests"""
import numpy as np
import torch

from mon.common import case
from pyoptmat import experiments

RULE = (
    "random test descriptions, the generated histories judged point by point against the "
    "description; a case counts if its (generator, sizes, holds) signature is new"
)


@case("P25", 800, 16000)
def tension(ctx):
    """Tension and compression tests"""
    nb, n = ctx.int(1, 6), ctx.int(2, 40)
    sg = torch.tensor(ctx.rng.choice([-1.0, 1.0], size=nb))
    rate, lim = ctx.logu(1e-8, 1.0, nb) * sg, ctx.uni(1e-3, 0.5, nb) * sg
    T = ctx.uni(300.0, 1200.0, nb)
    t, e, th, c = experiments.make_tension_tests(rate, T, lim, n)
    ctx.describe(nbatch=nb, nsteps=n)
    ctx.sig(nb, n, round(float(lim[0]), 3))
    f = torch.linspace(0, 1, n)[:, None]
    ctx.close("strains", e, f * lim, rtol=1e-10, atol=1e-12)
    ctx.close("times", t, f * lim / rate, rtol=1e-10, atol=1e-12)
    ctx.close("temperatures", th, T.expand(n, nb), rtol=0.0, atol=0.0)
    ctx.shape("cycles", c, (n, nb))
    ctx.expect(bool((c == 0).all()) and not c.dtype.is_floating_point, "cycles are zero")


@case("P25", 800, 16000)
def creep(ctx):
    """Creep tests"""
    nb, nl, nh = ctx.int(1, 6), ctx.int(2, 20), ctx.int(1, 40)
    s = ctx.uni(1.0, 300.0, nb) * torch.tensor(ctx.rng.choice([-1.0, 1.0], size=nb))
    rate = ctx.logu(1e-3, 1e3, nb) * torch.sign(s)
    T = ctx.uni(300.0, 1200.0, nb)
    end = (s / rate) * ctx.logu(1.5, 1e4, nb)
    log = ctx.flip()
    t, x, th, c = experiments.make_creep_tests(s, T, rate, end, nl, nh, logspace=log)
    ctx.describe(nbatch=nb, nload=nl, nhold=nh, logspace=log)
    ctx.sig(nb, nl, nh, log)
    f = torch.linspace(0, 1, nl)[:, None]
    ctx.close("load times", t[:nl], f * s / rate, rtol=1e-10, atol=1e-12)
    ctx.close("load stresses", x[:nl], f * s, rtol=1e-10, atol=1e-12)
    ctx.close("hold stresses", x[nl:], s.expand(nh, nb), rtol=0.0, atol=0.0)
    a = (s / rate)
    k = torch.arange(1, nh + 1)[:, None] / nh
    want = a * (end / a) ** k if log else a + (end - a) * k
    ctx.close("hold times", t[nl:], want, rtol=1e-9)
    ctx.close("temperatures", th, T.expand(nl + nh, nb), rtol=0.0, atol=0.0)
    ctx.expect(bool((c[:nl] == 0).all()) and bool((c[nl:] == 1).all()), "loading is 0, hold is 1")
    ctx.shape("cycles", c, (nl + nh, nb))


@case("P25", 2000, 40000)
def cyclic(ctx):
    """Strain cycles with holds"""
    if ctx.flip(0.3):
        cyc = experiments.generate_random_cycle()
        if cyc["max_strain"] < 1e-5:
            cyc["max_strain"] = 0.01
    else:
        cyc = {
            "max_strain": ctx.uni(1e-3, 0.05), "R": ctx.pick(-1.0, ctx.uni(-2.0, 0.9), 0.0, 1.0),
            "strain_rate": ctx.logu(1e-6, 1e-1),
            "tension_hold": ctx.pick(0.0, ctx.logu(1e-2, 1e4)),
            "compression_hold": ctx.pick(0.0, ctx.logu(1e-2, 1e4)),
        }
    N, nl, nh = ctx.int(1, 12), ctx.int(1, 12), ctx.int(1, 12)
    keep = dict(cyc)
    t, e, c = experiments.sample_cycle_normalized_times(cyc, N, nl, nh)
    ctx.describe(cycle={k: float(v) for k, v in cyc.items()}, N=N, nload=nl, nhold=nh)
    ctx.sig(N, nl, nh, cyc["tension_hold"] == 0, cyc["compression_hold"] == 0, round(cyc["R"], 2))
    ctx.expect(cyc == keep, "description is not modified")
    hi, lo, r = cyc["max_strain"], cyc["R"] * cyc["max_strain"], cyc["strain_rate"]
    seg = [(hi / r, 0.0, hi, nl), (cyc["tension_hold"], hi, hi, nh), ((hi - lo) / r, hi, lo, 2 * nl),
           (cyc["compression_hold"], lo, lo, nh), (abs(lo) / r, lo, 0.0, nl)]
    tt, ee, cc, now = [0.0], [0.0], [0], 0.0
    for k in range(N):
        for dur, a, b, n in seg:
            for i in range(1, n + 1):
                tt.append(now + dur * i / n)
                ee.append(a + (b - a) * i / n)
                cc.append(k)
            now += dur
    tt, ee = np.array(tt), np.array(ee)
    ctx.shape("times", t, tt.shape)
    ctx.close("times", t, tt, rtol=1e-10, atol=1e-12)
    # rounding of the times shows in the strains
    ctx.close("strains", e, ee, rtol=0.0, atol=1e-9 * max(abs(hi), abs(lo)) + 1e-12 * r * tt[-1])
    ctx.expect(bool((np.diff(t) >= -1e-12 * t[-1]).all()), "time does not run backwards")
    ctx.close("cycles", c, np.array(cc), rtol=0.0, atol=0.0)


@case("P25", 500, 10000)
def randoms(ctx):
    """Random descriptions stay within the requested ranges"""
    a = sorted(ctx.logu(1e-8, 1.0, 2).tolist())
    ms = ctx.uni(0.01, 0.3)
    d = experiments.generate_random_tension(strain_rate=a, max_strain=ms)
    ctx.describe(rates=a, max_strain=ms)
    ctx.sig(round(a[0], 9), round(ms, 4))
    ctx.expect(a[0] * (1 - 1e-9) <= d["strain_rate"] <= a[1] * (1 + 1e-9), "strain rate in range", d=d)
    ctx.expect(d["max_strain"] == ms, "maximum strain")
    n = ctx.int(2, 30)
    t, e = experiments.sample_tension(d, nsteps=n)
    ctx.close("strains", e, np.linspace(0, ms, n), rtol=1e-10, atol=1e-14)
    ctx.close("times", t, np.linspace(0, ms / d["strain_rate"], n), rtol=1e-10, atol=1e-14)
    rng = {
        "max_strain": sorted(ctx.uni(0.0, 0.1, 2).tolist()), "R": sorted(ctx.uni(-1.0, 1.0, 2).tolist()),
        "strain_rate": a, "tension_hold": sorted(ctx.uni(0.0, 1e4, 2).tolist()),
        "compression_hold": sorted(ctx.uni(0.0, 1e3, 2).tolist()),
    }
    q = experiments.generate_random_cycle(**rng)
    ctx.expect(set(q) == set(rng), "described quantities", q=q)
    for k, (lo, hi) in rng.items():
        tol = 1e-9 * max(abs(lo), abs(hi))
        ctx.expect(lo - tol <= q[k] <= hi + tol, f"{k} in range", value=float(q[k]), range=[lo, hi])
    q = experiments.generate_random_cycle()
    for k, (lo, hi) in {"max_strain": (0, 0.02), "R": (-1, 1), "strain_rate": (1e-5, 1e-3),
                        "tension_hold": (0, 3600.0), "compression_hold": (0, 600)}.items():
        ctx.expect(lo <= q[k] * (1 + 1e-12) and q[k] <= hi * (1 + 1e-12), f"{k} in default range")
