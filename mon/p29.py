"""P29: inference optimizes the joint density"""
import torch
import pyro
from pyro.infer import SVI, Trace_ELBO

from mon import inference
from mon.common import case
from mon.p27 import normal_lp
from mon.p28 import build, half_lp
from pyoptmat import optimize

RULE = (
    "random hierarchical problems trained for some steps, loss and gradient of every step judged "
    "against an independent evaluation; a case counts if its (parameters, types, options) is new"
)


def objective(mk, data, obs, pri, u, names):
    """Negative joint density at the unconstrained parameters u, every trial simulated alone"""
    ll, ls, ss, eps, per_type, inc, w, _ = pri
    lp = 0.0
    for n, a, b, c in zip(mk.names, ll, ls, ss):
        m, s, v = u[names(n, "loc")], torch.exp(u[names(n, "scale")]), u[names(n, "")]
        lp = lp + normal_lp(m, a, b).sum() + half_lp(s, c).sum()
        q = normal_lp(v, m, s)
        lp = lp + (w * q.reshape(len(w), -1).sum(-1)).sum()
    noise = eps
    if inc:
        noise = torch.exp(u[names("eps", "")])
        lp = lp + half_lp(noise, eps).sum()
    full = noise[data[2]] if per_type else noise
    pred = mk.alone([lambda j, n=n: u[names(n, "")][j] for n in mk.names], *data)
    lp = lp + (w * normal_lp(obs, pred, full).sum(0)).sum()
    return -lp


@case("P29", 100, 5000)
def training(ctx):
    """Variational inference with the built in guide"""
    adj = ctx.flip(0.8)
    mk, data, model, pri = build(ctx, use_adjoint=adj)
    ll, ls, ss, eps, per_type, inc, w, sfx = pri
    ne, nt = data[0].shape[2], data[0].shape[1]
    suf = sfx.get("param_suffix", "_param")

    def names(n, what):
        return n + {"loc": sfx.get("loc_suffix", "_loc"), "scale": sfx.get("scale_suffix", "_scale"),
                    "": ""}[what] + suf

    prior = [t.clone() for t in ll + ls + ss + [eps]]
    obs = mk.alone([lambda j, n=n: ll[mk.names.index(n)] for n in mk.names], *data).detach()
    obs = obs * (1 + 0.1 * ctx.normal(nt, ne))
    guide = model.make_guide()
    lr = ctx.pick(1e-3, 1e-2)
    svi = SVI(model, guide, pyro.optim.SGD({"lr": lr * 1e-4}) if ctx.flip() else
              pyro.optim.Adam({"lr": lr}), Trace_ELBO())
    # the untrained guide sits at the prior
    guide(*data, obs)
    store = pyro.get_param_store()
    want = {names(n, k) for n in mk.names for k in ("loc", "scale", "")} | ({names("eps", "")} if inc else set())
    ctx.expect(set(store.keys()) == want, "trained quantities", got=sorted(store.keys()))
    for n, a, c in zip(mk.names, ll, ss):
        ctx.close("initial mean", pyro.param(names(n, "loc")), a, rtol=1e-12)
        ctx.close("initial scale", pyro.param(names(n, "scale")), c, rtol=1e-12)
        ctx.close("initial trials", pyro.param(names(n, "")), a.expand((ne,) + a.shape), rtol=1e-12)
    loss = Trace_ELBO()
    for step in range(ctx.int(1, 3)):
        u = {k: store[k].unconstrained().detach().clone().requires_grad_(True) for k in sorted(want)}
        ref = objective(mk, data, obs, (*[ [p.clone() for p in q] for q in (
            prior[:len(ll)], prior[len(ll):2 * len(ll)], prior[2 * len(ll):3 * len(ll)])], prior[-1],
            per_type, inc, w, sfx), u, names)
        g = dict(zip(u, torch.autograd.grad(ref, list(u.values()), allow_unused=True)))
        leaves = {k: store[k].unconstrained() for k in want}
        for v in leaves.values():
            v.grad = None
        got = loss.loss_and_grads(model, guide, *data, obs)
        ctx.close("loss", got, float(ref), rtol=1e-6, atol=1e-4)
        big = max(float(v.abs().max()) for v in g.values() if v is not None)
        for k in sorted(want):
            a = leaves[k].grad
            a = torch.zeros_like(u[k]) if a is None else a
            b = torch.zeros_like(u[k]) if g[k] is None else g[k]
            ctx.saw("gradients of trained quantities")
            ctx.close(f"gradient of {k}", a, b, rtol=1e-4, atol=1e-5 * big, step=step)
        for v in leaves.values():
            v.grad = None
        svi.step(*data, obs)
        if any(bool((pyro.param(names(n, "")) < 0.05).any()) or bool((pyro.param(names(n, "")) > 0.95).any())
               for n in mk.names):
            break
        ctx.saw("training steps")
    for t, k in zip(ll + ls + ss + [eps], prior):
        ctx.same("priors", t.detach(), k)
    ex = model.get_extra_params()
    ctx.expect(len(ex) == len(mk.names), "parameters for the adjoint")
    for n, p in zip(mk.names, ex):
        ctx.same("parameters for the adjoint", p.detach(), store[names(n, "")].detach())


@case("P29", 60, 2500)
def deterministic(ctx):
    """Training a deterministic model reduces the error with the exact gradient"""
    nt, ne = ctx.int(4, 8), ctx.int(1, 4)
    mk = inference.Maker(ctx)
    data = inference.dataset(ctx, nt, ne)
    true = [torch.as_tensor(ctx.uni(0.35, 0.65, *mk.shape(n)), dtype=torch.float64) for n in mk.names]
    res = mk.alone([lambda j, p=p: p for p in true], *data).detach()
    ics = [t + 0.1 * (ctx.normal(*t.shape) if t.dim() else ctx.uni(-1, 1)) for t in true]
    ics = [t.clamp(0.1, 0.9) for t in ics]
    keep = [t.clone() for t in ics]
    models = [optimize.DeterministicModel(lambda *a, adj=adj: mk(*a, use_adjoint=adj), mk.names, ics)
              for adj in (True, False)]
    sc = res.abs().amax(0) + 1e-8
    ctx.describe(parameters=mk.names, ntime=nt, types=data[2])
    ctx.sig(tuple(mk.names), nt, tuple(data[2].tolist()))
    hist = []
    for m in models:
        opt = torch.optim.SGD(m.parameters(), lr=1e-3)
        h = []
        for _ in range(3):
            opt.zero_grad()
            loss = (((m(*data) - res) / sc) ** 2).mean()
            loss.backward()
            torch.nn.utils.clip_grad_norm_(m.parameters(), 1.0)
            opt.step()
            h.append(float(loss.detach()))
        hist.append(h)
        ctx.saw("training steps", 3)
    ctx.close("training with and without the adjoint", torch.tensor(hist[0]), torch.tensor(hist[1]),
              rtol=1e-4, atol=1e-9)
    for a, b in zip(models[0].parameters(), models[1].parameters()):
        ctx.close("trained values", a, b, rtol=1e-5, atol=1e-7)
    for t, k in zip(ics, keep):
        ctx.same("caller's initial values", t, k)
