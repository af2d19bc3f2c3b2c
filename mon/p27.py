"""P27: deterministic and single level statistical predictions"""
import math

import torch
import pyro
from pyro import poutine

from mon import inference
from mon.common import case
from pyoptmat import optimize

RULE = (
    "random calibration problems (mixed test types and controls, random sets of parameters), judged "
    "against simulations of the single experiments; a case counts if its (parameters, types) is new"
)


def problem(ctx):
    """A maker and data"""
    nt, ne = ctx.int(4, 8), ctx.int(1, 4)
    mk = inference.Maker(ctx)
    data = inference.dataset(ctx, nt, ne)
    ctx.describe(parameters=mk.names, ntime=nt, types=data[2], control=data[3])
    ctx.sig(tuple(mk.names), nt, tuple(data[2].tolist()), tuple(data[3].tolist()))
    vals = [torch.as_tensor(ctx.uni(0.3, 0.7, *mk.shape(n)), dtype=torch.float64) for n in mk.names]
    return mk, data, vals


class Factory(torch.nn.Module):
    """A maker which is a torch module with parameters of its own"""

    def __init__(self, make):
        super().__init__()
        self.make = make
        self.offset = torch.nn.Parameter(torch.tensor(0.25))

    def forward(self, *args):
        """Build the model"""
        return self.make(*args)


@case("P27", 130, 6000)
def deterministic(ctx):
    """Predictions, their gradients and training"""
    mk, data, vals = problem(ctx)
    keep = [v.clone() for v in vals]
    adj = ctx.flip()
    make = lambda *a: mk(*a, use_adjoint=adj)
    model = optimize.DeterministicModel(Factory(make) if ctx.flip(0.3) else make, mk.names, vals)
    own = [n for n, _ in model.named_parameters() if "." not in n]
    ctx.expect(own == mk.names, "trainable parameters", got=own)
    for n, v in zip(mk.names, keep):
        ctx.close("initial value", getattr(model, n), v, rtol=0.0, atol=0.0)
    ps = [v.clone().requires_grad_(True) for v in keep]
    for step in range(ctx.int(1, 2)):
        got = model(*data)
        want = mk.alone([lambda j, p=p: p for p in ps], *data)
        sc = want.detach().abs().amax(0) + 1e-8
        ctx.close("prediction", got, want, rtol=1e-6, scale=sc, atol=1e-7)
        W = ctx.normal(*want.shape) / sc
        model.zero_grad()
        (got * W).sum().backward()
        ref = torch.autograd.grad((want * W).sum(), ps, allow_unused=True)
        big = max([1.0] + [float(g.abs().max()) for g in ref if g is not None])
        for n, p, g in zip(mk.names, ps, ref):
            h = getattr(model, n).grad
            ctx.saw("parameter gradients")
            g = torch.zeros_like(p) if g is None else g
            h = torch.zeros_like(p) if h is None else h
            ctx.close(f"gradient of {n}", h, g, rtol=1e-5, atol=1e-5 * big)
        with torch.no_grad():
            for n, p in zip(mk.names, ps):
                q = getattr(model, n)
                d = 0.05 * ctx.normal(*p.shape) if p.dim() else torch.tensor(0.05 * ctx.uni(-1, 1))
                q += d
                p += d
    for v, k in zip(vals, keep):
        ctx.same("caller's initial values", v, k)


def normal_lp(x, loc, scale):
    """Log density of a normal distribution"""
    return -0.5 * ((x - loc) / scale) ** 2 - torch.log(torch.as_tensor(scale)) - 0.5 * math.log(2 * math.pi)


@case("P27", 130, 6000)
def statistical(ctx):
    """Log density of the single level model"""
    mk, data, _ = problem(ctx)
    pyro.clear_param_store()
    locs = [torch.as_tensor(ctx.uni(0.4, 0.6, *mk.shape(n)), dtype=torch.float64) for n in mk.names]
    scales = [torch.as_tensor(ctx.uni(0.02, 0.05, *mk.shape(n)), dtype=torch.float64) for n in mk.names]
    per_type = ctx.flip()
    eps = ctx.uni(0.5, 5.0, 7) if per_type else torch.tensor(ctx.uni(0.5, 5.0))
    nan = ctx.flip(0.3)
    make = lambda *a: mk(*a, use_adjoint=False)
    model = optimize.StatisticalModel(Factory(make) if ctx.flip(0.2) else make, mk.names, locs, scales,
                                      eps, nan_num=nan)
    x = {n: l + s * ctx.uni(-1, 1) for n, l, s in zip(mk.names, locs, scales)}
    want = mk.alone([lambda j, n=n: x[n] for n in mk.names], *data)
    sc = want.abs().amax(0) + 1e-8
    noise = eps[data[2]] if per_type else eps.expand(data[2].shape)
    obs = want + noise * ctx.normal(*want.shape)
    seen = ctx.flip(0.7)
    cond = dict(x) if seen else dict(x, obs=obs)
    tr = poutine.trace(poutine.condition(model, data=cond)).get_trace(*data, *((obs,) if seen else ()))
    tr.compute_log_prob()
    for n, l, s in zip(mk.names, locs, scales):
        ctx.close(f"density of {n}", tr.nodes[n]["log_prob_sum"], normal_lp(x[n], l, s).sum(), rtol=1e-9,
                  atol=1e-9)
    site = tr.nodes["obs"]
    ctx.close("mean of the observations", site["fn"].mean.expand(want.shape), want, rtol=1e-6, scale=sc,
              atol=1e-7)
    ctx.close("noise of the observations", site["fn"].stddev.expand(want.shape), noise.expand(want.shape),
              rtol=1e-12)
    ctx.close("density of the observations", site["log_prob"].expand(want.shape),
              normal_lp(obs, want, noise), rtol=1e-5, atol=1e-4)
    ctx.expect(set(k for k, v in tr.nodes.items() if v["type"] == "sample" and not k.startswith("_")
                   and k not in ("trials", "time")) == set(mk.names) | {"obs"}, "sampled quantities")
    out = poutine.condition(model, data=x)(*data)
    ctx.shape("sampled observations", out, want.shape)
    z = ((out - want) / noise)
    ctx.expect(bool((z.abs() < 8).all()) and float(z.abs().max()) > 1e-3, "sampled noise", z=z)


@case("P27", 40, 500)
def broken(ctx):
    """Predictions which are not numbers are replaced by zeros on request"""
    mk, data, _ = problem(ctx)
    pyro.clear_param_store()
    nt, ne = data[0].shape[1:]
    bad = torch.tensor(ctx.rng.random((nt, ne)) < 0.2)
    raw = ctx.normal(nt, ne) * 100.0
    raw = torch.where(bad, torch.full_like(raw, float("nan")), raw)

    class Fake:
        """A model whose predictions are given"""

        def solve_both(self, *_):
            """Prescribed predictions"""
            return raw[..., None]

    nan = ctx.flip()
    types = torch.zeros(ne).long()
    model = optimize.StatisticalModel(lambda a: Fake(), ["p"], [torch.tensor(0.5)], [torch.tensor(0.1)],
                                      torch.tensor(1.0), nan_num=nan)
    args = (data[0], data[1] * 0, types, data[3])
    if not nan:
        return ctx.saw("without replacement")
    tr = poutine.trace(model).get_trace(*args)
    m = tr.nodes["obs"]["fn"].mean
    ctx.close("mean of the observations", m, torch.where(bad, torch.zeros_like(raw), raw), rtol=1e-12)
    return ctx.saw("replaced values", int(bad.sum()))
