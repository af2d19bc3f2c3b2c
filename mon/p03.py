"""P03: members of a batch do not influence each other"""
import torch

from mon import gens, odes
from mon.common import case, solved, Skip
from mon.p02 import mild
from pyoptmat import models, ode

RULE = (
    "a batched integration compared with the same members integrated alone, permuted, replicated "
    "or next to broken neighbours; a case counts if its (problem, selection, options) signature is new"
)


@case("P03", 900, 20000)
def subsets(ctx):
    """Sub-selections of the batch give the same trajectories and gradients"""
    nb, n = ctx.int(2, 6), ctx.int(1, 4)
    nt = ctx.pick(2, 4, 6, 9, 12)
    nb, n, nt = odes.sizes(ctx, nb, n, nt)
    s = mild(ctx, nb, n, perbatch=ctx.flip(0.7))
    y0 = ctx.uni(-1, 1, nb, n)
    t = odes.grid(ctx, nt, nb, tmax=1.0, repeats=ctx.flip(0.2))
    o = odes.options(ctx, nt)
    fn = ctx.pick(ode.odeint_adjoint, ode.odeint)
    kind = ctx.cycle("single", "permute", "replicate", "subset")
    idx = torch.tensor({
        "single": [ctx.int(0, nb - 1)],
        "permute": ctx.rng.permutation(nb).tolist(),
        "replicate": ctx.rng.integers(0, nb, size=nb + 3).tolist(),
        "subset": ctx.rng.permutation(nb)[: ctx.int(1, nb)].tolist(),
    }[kind])
    ctx.describe(terms=s.terms, nb=nb, n=n, nt=nt, options=o, kind=kind, members=idx)
    ctx.sig(s.terms, nb, n, nt, kind, tuple(sorted(o.items())), tuple(idx.tolist()))
    s2 = s.member(idx)
    W = ctx.normal(nt, nb, n)

    def run(sys, y, tt, w):
        z = y.clone().requires_grad_(True)
        r = fn(sys, z, tt, **o)
        g = torch.autograd.grad((w * r).sum(), z)[0]
        return r.detach(), g

    a, ga = run(s, y0, t, W)
    if not torch.isfinite(a).all() or float(a.abs().max()) > 20:
        raise Skip
    b, gb = run(s2, y0[idx], t[:, idx].contiguous(), W[:, idx])
    ctx.saw("members compared", len(idx))
    ctx.close("trajectory of selected members", b, a[:, idx], rtol=1e-6, atol=1e-7)
    ctx.close("gradient of selected members", gb, ga[idx], rtol=3e-4,
              atol=3e-4 * max(1.0, float(ga.abs().max())))


class Broken(torch.nn.Module):
    """A mild system in which some members leave the domain of the rate"""

    def __init__(self, base, bad):
        super().__init__()
        self.base, self.bad = base, bad

    def forward(self, t, y):
        f, J = self.base(t, y)
        f, J = f.clone(), J.clone()
        f[..., self.bad, :] = torch.sqrt(-1.0 - f[..., self.bad, :] ** 2)
        return f, J


@case("P03", 300, 5000)
def broken_neighbour(ctx):
    """A member whose solve breaks down leaves the others alone"""
    nb, n = ctx.int(2, 5), ctx.int(1, 3)
    nt = ctx.pick(2, 5, 9)
    nb, n, nt = odes.sizes(ctx, nb, n, nt)
    s = mild(ctx, nb, n)
    y0 = ctx.uni(-1, 1, nb, n)
    t = odes.grid(ctx, nt, nb, tmax=1.0)
    o = odes.options(ctx, nt)
    bad = ctx.int(0, nb - 1)
    good = [i for i in range(nb) if i != bad]
    ctx.describe(terms=s.terms, nb=nb, n=n, nt=nt, options=o, bad=bad)
    ctx.sig(s.terms, nb, n, nt, bad, tuple(sorted(o.items())))
    a = ode.odeint(s, y0, t, **o).detach()
    if not torch.isfinite(a).all() or float(a.abs().max()) > 20:
        raise Skip
    b = ode.odeint(Broken(s, bad), y0, t, **o).detach()
    ctx.saw("members compared", nb - 1)
    ctx.close("healthy members", b[:, good], a[:, good], rtol=1e-6, atol=1e-7)


@case("P03", 500, 15000)
def rates(ctx):
    """Rates and Jacobians of a material, members in different regimes, loaded or not"""
    from mon.p12 import ystate

    nb = ctx.int(2, 8)
    obj, ref = gens.Gen(ctx).model()
    sh = (*ctx.pick((), (), (ctx.int(1, 3),)), nb)
    y, t, T, e = ystate(ctx, sh, ref)
    if ctx.flip():  # temperatures and rates far apart
        T = torch.where(torch.tensor(ctx.rng.random(sh)) < 0.5, torch.tensor(gens.TLO + 1.0),
                        torch.tensor(gens.THI - 1.0))
        e = e * torch.where(torch.tensor(ctx.rng.random(sh)) < 0.5, torch.tensor(1e-4), torch.tensor(1.0))
    if ctx.flip(0.3):
        y = torch.where(torch.tensor(ctx.rng.random(sh))[..., None] < 0.5, torch.zeros_like(y), y)
    ctx.describe(model=ref.kind, shape=list(sh))
    ctx.sig(ref.kind, sh)
    full = obj(t, y, e, T)
    picks = [torch.tensor([i]) for i in range(nb)] + [torch.tensor(ctx.rng.permutation(nb))]
    for sel in picks:
        part = obj(t[..., sel], y[..., sel, :], e[..., sel], T[..., sel])
        for name, a, b in zip(("rate", "d/dstate", "d/drate"), part, full):
            b = b[..., sel, :, :] if name == "d/dstate" else b[..., sel, :]
            ctx.close(f"{name} of selected tests", a, b, rtol=1e-9,
                      scale=b.abs() + 1e-6 * b.abs().amax(), atol=1e-300, members=sel)
    ctx.saw("members compared", 2 * nb)


@case("P03", 50, 4000)
def material(ctx):
    """Simulated tests do not influence each other, also with mixed control modes"""
    nb, nt = ctx.int(2, 5), ctx.pick(4, 8, 13)
    g = gens.Gen(ctx)
    obj, ref = g.model(flow=g.isokin() if ctx.flip(0.7) else None, dkind=ctx.pick("hl", "const", "none"))
    t, e, T = gens.history(ctx, nt, nb, emax=0.01)
    kw = dict(block_size=ctx.pick(1, 3, nt - 1, nt + 4), rtol=1e-15, atol=1e-8,
              miter=30, throw_on_fail=True)
    intg = models.ModelIntegrator(obj, use_adjoint=ctx.flip(), **kw)
    y = solved(intg.solve_strain, t, e, T).detach()
    if not torch.isfinite(y).all() or (ref.damaged and float(y[..., -1].max()) > 0.5):
        raise Skip
    control = torch.tensor(ctx.rng.integers(0, 2, size=nb))
    data = torch.where(control == 0, e, y[..., 0])
    full = solved(intg.solve_both, t, T, data, control).detach()
    if not torch.isfinite(full).all():
        raise Skip
    ctx.describe(model=ref.kind, nb=nb, nt=nt, control=control, options=kw)
    ctx.sig(ref.kind, nb, nt, tuple(control.tolist()), kw["block_size"])
    for sel in ([ctx.int(0, nb - 1)], ctx.rng.permutation(nb).tolist()):
        sel = torch.tensor(sel)
        sub = solved(intg.solve_both, t[:, sel], T[:, sel], data[:, sel],
                     control[sel]).detach()
        ctx.saw("members compared", len(sel))
        sc = full[:, sel].abs().amax(0, keepdim=True) + 1e-9
        ctx.close("mixed control simulation of selected tests", sub, full[:, sel],
                  rtol=1e-5, scale=sc, atol=1e-6, control=control, members=sel)
        sub = solved(intg.solve_strain, t[:, sel], e[:, sel], T[:, sel]).detach()
        sc = y[:, sel].abs().amax(0, keepdim=True) + 1e-9
        ctx.close("strain controlled simulation of selected tests", sub, y[:, sel],
                  rtol=1e-5, scale=sc, atol=1e-6)
