"""P28: joint density of the hierarchical model"""
import math

import torch
import pyro
from pyro import poutine

from mon import inference
from mon.common import case
from mon.p27 import normal_lp
from pyoptmat import experiments, optimize

RULE = (
    "random hierarchical calibration problems at random values of all the unknowns, the density of "
    "every unknown and observation judged; a case counts if its (parameters, types, options) is new"
)


def half_lp(x, s):
    """Log density of a half normal distribution"""
    return normal_lp(x, torch.zeros_like(s), s) + math.log(2.0)


def build(ctx, **kw):
    """A hierarchical model with everything needed to judge it"""
    nt, ne = ctx.int(4, 7), ctx.int(1, 4)
    mk = inference.Maker(ctx)
    data = inference.dataset(ctx, nt, ne)
    u = lambda a, b, n: torch.as_tensor(ctx.uni(a, b, *mk.shape(n)), dtype=torch.float64)
    ll = [u(0.4, 0.6, n) for n in mk.names]
    ls = [u(0.05, 0.2, n) for n in mk.names]
    ss = [u(0.02, 0.08, n) for n in mk.names]
    per_type, inc = ctx.flip(), ctx.flip()
    eps = ctx.uni(0.5, 5.0, 7) if per_type else torch.tensor(ctx.uni(0.5, 5.0))
    weights = None
    if ctx.flip(0.4):
        weights = {n: ctx.uni(0.1, 3.0) for n in experiments.exp_map}
        unused = [n for n, v in experiments.exp_map.items() if v not in data[2].tolist()]
        if ctx.flip() and unused:
            weights.pop(ctx.pick(*unused))
    sfx = {}
    if ctx.flip(0.3):
        sfx = dict(loc_suffix="_m", scale_suffix="_s", param_suffix="_q")
    pyro.clear_param_store()
    model = optimize.HierarchicalStatisticalModel(
        lambda *a, **k: mk(*a, **kw, **k), list(mk.names), ll, ls, ss, eps, include_noise=inc,
        weights=weights, **sfx)
    ctx.describe(parameters=mk.names, ntime=nt, types=data[2], control=data[3], per_type=per_type,
                 infer_noise=inc, weights=weights)
    ctx.sig(tuple(mk.names), nt, tuple(data[2].tolist()), per_type, inc, weights is None, bool(sfx))
    w = torch.ones(ne)
    if weights is not None:
        w = torch.tensor([weights.get(next(k for k, v in experiments.exp_map.items() if v == int(t)), 0.0)
                          for t in data[2]])
    return mk, data, model, (ll, ls, ss, eps, per_type, inc, w, sfx)


@case("P28", 200, 9000)
def density(ctx):
    """Every factor of the joint density"""
    mk, data, model, (ll, ls, ss, eps, per_type, inc, w, sfx) = build(ctx, use_adjoint=False)
    ne, nt = data[0].shape[2], data[0].shape[1]
    loc, sca = sfx.get("loc_suffix", "_loc"), sfx.get("scale_suffix", "_scale")
    x, lp = {}, {}
    for n, a, b, c in zip(mk.names, ll, ls, ss):
        m = a + b * ctx.uni(-1, 1)
        s = c * ctx.uni(0.3, 1.5)
        v = m + s * ctx.uni(-1.5, 1.5, ne, *mk.shape(n))
        x[n + loc], x[n + sca], x[n] = m, s, v
        lp[n + loc] = normal_lp(m, a, b).sum()
        lp[n + sca] = half_lp(s, c).sum()
        p = normal_lp(v, m, s)
        lp[n] = p.reshape(ne, -1).sum(-1)
    noise = eps
    if inc:
        noise = eps * (ctx.uni(0.3, 1.5, 7) if per_type else ctx.uni(0.3, 1.5))
        x["eps"] = noise
        lp["eps"] = half_lp(noise, eps).sum()
    full = noise[data[2]] if per_type else noise.expand(ne)
    want = mk.alone([lambda j, n=n: x[n][j] for n in mk.names], *data)
    sc = want.abs().amax(0) + 1e-8
    obs = want + full * ctx.normal(nt, ne)
    tr = poutine.trace(poutine.condition(model, data=x)).get_trace(*data, obs)
    tr.compute_log_prob()
    names = {k for k, v in tr.nodes.items() if v["type"] == "sample" and not k.startswith("_")
             and k not in ("trials", "time")}
    ctx.expect(names == set(x) | {"obs"}, "sampled quantities", got=sorted(names))
    for k, v in lp.items():
        got = tr.nodes[k]["unscaled_log_prob"] if "unscaled_log_prob" in tr.nodes[k] else \
            tr.nodes[k]["fn"].log_prob(tr.nodes[k]["value"])
        got = got.sum() if k not in mk.names else got
        ctx.close(f"density of {k}", got, v, rtol=1e-9, atol=1e-9)
    site = tr.nodes["obs"]
    ctx.close("predicted observations of every trial", site["fn"].mean.expand(nt, ne), want, rtol=1e-6,
              scale=sc, atol=1e-7)
    ctx.close("noise of the observations", site["fn"].stddev.expand(nt, ne), full.expand(nt, ne), rtol=1e-12)
    ctx.close("weighted density of the observations", site["log_prob"].expand(nt, ne),
              w * normal_lp(obs, want, full), rtol=1e-5, atol=1e-4)
    if bool((w == 1).all()):
        total = sum(v.sum() for v in lp.values()) + normal_lp(obs, want, full).sum()
        ctx.close("joint density", tr.log_prob_sum(), total, rtol=1e-5, atol=1e-3)
    ctx.close("returned predictions", tr.nodes["_RETURN"]["value"], want, rtol=1e-6, scale=sc, atol=1e-7)


@case("P28", 120, 5000)
def predictive(ctx):
    """Without observations the model samples trials independently from their own parameters"""
    mk, data, model, (_, _, _, _, per_type, inc, _, sfx) = build(ctx, use_adjoint=False)
    ne, nt = data[0].shape[2], data[0].shape[1]
    tr = poutine.trace(model).get_trace(*data)
    val = {n: tr.nodes[n]["value"].detach() for n in mk.names}
    for n in mk.names:
        ctx.shape(f"sampled {n}", val[n], (ne,) + mk.shape(n))
        if ne > 1:
            ctx.expect(bool((val[n][0] != val[n][1]).any()), "trials have their own parameters")
        # kept within the range where the material is defined
        if bool((val[n] < 0.0).any()) or bool((val[n] > 1.0).any()):
            return ctx.saw("draws outside of the range")
    want = mk.alone([lambda j, n=n: val[n][j] for n in mk.names], *data).detach()
    sc = want.abs().amax(0) + 1e-8
    ctx.close("predictions of the sampled trials", tr.nodes["_RETURN"]["value"], want, rtol=1e-6, scale=sc,
              atol=1e-7)
    ctx.shape("sampled observations", tr.nodes["obs"]["value"], (nt, ne))
    eps = tr.nodes["eps"]["value"] if inc else model.eps
    full = eps[data[2]] if per_type else eps.expand(ne)
    z = (tr.nodes["obs"]["value"] - want) / full
    ctx.expect(float(z.detach().abs().max()) < 8.0, "noise of the sampled observations")
    return ctx.saw("sampled trials", ne)
