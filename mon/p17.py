"""P17: strain, stress and mixed control describe the same material"""
import torch

from mon import gens
from mon.common import case, solved, Skip
from pyoptmat import models

RULE = (
    "simulated responses fed back under the other control; a case counts if its (model, control, "
    "shape, options) signature is new and the response was inelastic or damaged somewhere"
)


def draw(ctx, emax=0.015):
    """A model, its loads and its strain controlled response"""
    nb, nt = ctx.int(1, 4), ctx.pick(4, 8, 13)
    g = gens.Gen(ctx, batch=nb)
    fl = g.isokin() if ctx.flip(0.7) else g.flow(ctx.pick("perfect", "super"))
    if "km(" in fl[1].kind or "ri(" in fl[1].kind:
        raise Skip
    obj, ref = g.model(flow=fl, dkind=ctx.pick("hl", "const", "none"))
    t, e, T = gens.history(ctx, nt, nb, emax=emax, repeats=ctx.flip(0.2))
    kw = dict(block_size=ctx.pick(1, 2, 3, nt - 1, nt + 4), rtol=1e-15, atol=1e-8, miter=30,
              throw_on_fail=True)
    intg = models.ModelIntegrator(obj, use_adjoint=ctx.flip(), **kw)
    # repeated times only carry zero increments
    y = solved(intg.solve_strain, t, e, T).detach()
    if not torch.isfinite(y).all() or (ref.damaged and float(y[..., -1].max()) > 0.5):
        raise Skip
    ctx.describe(model=ref.kind, nb=nb, nt=nt, options=kw)
    ctx.sig(ref.kind, nb, nt, kw["block_size"])
    return obj, ref, intg, kw, t, e, T, y


@case("P17", 90, 5000)
def feedback(ctx):
    """The stress response, prescribed, gives back strain and history"""
    obj, ref, intg, kw, t, e, T, y = draw(ctx)
    # a strain resolution of 1e-10 compares with a stress resolution of 1e-5
    kw = dict(kw, atol=1e-9)
    intg2 = models.ModelIntegrator(obj, use_adjoint=ctx.flip(), **kw)
    z = solved(intg2.solve_stress, t, y[..., 0], T).detach()
    sc = y.abs().amax(0)
    ctx.saw("inelastic histories", int((y[..., 1:].abs().amax(0).sum(-1) > 0).sum()))
    ctx.close("recovered strain", z[..., 0], e, rtol=1e-5, scale=e.abs().amax(0), atol=1e-7)
    ctx.close("recovered history", z[..., 1:], y[..., 1:], rtol=1e-5, scale=sc[..., 1:], atol=2e-4)


@case("P17", 90, 5000)
def mixed(ctx):
    """Tests with mixed control are the tests of the pure modes"""
    _, ref, intg, _, t, e, T, y = draw(ctx)
    nb = t.shape[1]
    c = torch.tensor(ctx.rng.integers(0, 2, size=nb))
    if ctx.flip(0.2):
        c = c * 0 + ctx.int(0, 1)
    z = solved(intg.solve_stress, t, y[..., 0], T).detach()
    both = solved(intg.solve_both, t, T, torch.where(c == 0, e, y[..., 0]), c).detach()
    ctx.sig(tuple(c.tolist()))
    want = torch.where(c[None, :, None] == 0, y, z)
    ctx.saw("strain controlled tests", int((c == 0).sum()))
    ctx.saw("stress controlled tests", int((c == 1).sum()))
    ctx.close("mixed control", both, want, rtol=1e-5, scale=want.abs().amax(0), atol=1e-6)


@case("P17", 60, 4000)
def mild(ctx):
    """Small histories are always solved, also with repeated times, and agree in all the modes"""
    nb, nt = ctx.int(1, 4), ctx.pick(4, 8, 13)
    g = gens.Gen(ctx, batch=nb)
    obj, ref = g.model(flow=g.isokin(), dkind=ctx.pick("hl", "const", "none"))
    t, e, T = gens.history(ctx, nt, nb, emax=1e-4, repeats=ctx.flip())
    t = t * ctx.pick(1.0, 1.0, 1e-2, 1e-4)  # also very short steps
    e = torch.cat([e[:1], e[:1] + torch.where(t.diff(dim=0) > 0, e.diff(dim=0), 0.0).cumsum(0)])
    kw = dict(block_size=ctx.pick(1, 2, 3, nt - 1, nt + 4), rtol=1e-10, atol=2e-9, miter=40,
              throw_on_fail=True)
    intg = models.ModelIntegrator(obj, use_adjoint=ctx.flip(), **kw)
    ctx.describe(model=ref.kind, nb=nb, nt=nt, options=kw)
    ctx.sig(ref.kind, nb, nt, kw["block_size"])
    c = torch.tensor(ctx.rng.integers(0, 2, size=nb))
    try:
        y = solved(intg.solve_strain, t, e, T).detach()
        z = solved(intg.solve_stress, t, y[..., 0], T).detach()
        both = solved(intg.solve_both, t, T, torch.where(c == 0, e, y[..., 0]), c).detach()
    except Skip:
        ctx.fail("a small history was reported as unsolved")
    ctx.saw("repeated times", int((t.diff(dim=0) == 0).sum()))
    ctx.expect(bool(torch.isfinite(y).all()), "finite response")
    ctx.close("recovered strain", z[..., 0], e, rtol=1e-4, scale=e.abs().amax(0), atol=1e-8)
    ctx.close("recovered history", z[..., 1:], y[..., 1:], rtol=1e-4,
              scale=y[..., 1:].abs().amax(0), atol=1e-3)
    want = torch.where(c[None, :, None] == 0, y, z)
    ctx.close("mixed control", both, want, rtol=1e-5, scale=want.abs().amax(0), atol=1e-5)
