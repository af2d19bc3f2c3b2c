"""P18: simulated tests satisfy the discretized constitutive equations"""
import torch

from mon import gens
from mon.common import case, solved, Skip
from pyoptmat import models

RULE = (
    "simulated tests whose every step is put into an independently written implementation of the "
    "constitutive equations; a case counts if its (model, control, method, shape) signature is new"
)


def draw(ctx, nb, nt):
    """A model and loads"""
    g = gens.Gen(ctx, batch=nb)
    obj, ref = g.model(flow=g.isokin() if ctx.flip(0.5) else None, dkind=ctx.pick("hl", "const", "none", "lm"))
    t, e, T = gens.history(ctx, nt, nb, emax=0.015, repeats=ctx.flip(0.3))
    t = t * ctx.pick(1.0, 1.0, 1e-3, 1e-5, 1e3)  # from impacts to slow tests
    return obj, ref, t, e, T


def finish(ctx, ref, y):
    """Usable responses only"""
    if not torch.isfinite(y).all() or (ref.damaged and float(y[..., -1].max()) > 0.5):
        raise Skip
    ctx.expect(bool((y[0] == 0).all()), "simulations start from the virgin state")


def judge(ctx, y, e, dt, T, ref):
    """Backward Euler residual of states (stress, history)"""
    res = y.diff(dim=0) - dt[..., None] * ref.rate(y[1:], e, T[1:])
    if "km(" in ref.kind:
        # the switch is a logarithm of the strain rate, hold times amplify rounding without bound
        res = torch.where((e == 0)[..., None], torch.zeros_like(res), res)
    ctx.saw("steps judged", dt.numel())
    return res


@case("P18", 120, 6000)
def strain(ctx):
    """Strain control"""
    nb, nt = ctx.int(1, 4), ctx.pick(2, 5, 9, 14)
    obj, ref, t, e, T = draw(ctx, nb, nt)
    bs = ctx.pick(1, 2, 3, nt - 1, nt + 4)
    adj = ctx.flip()
    intg = models.ModelIntegrator(obj, use_adjoint=adj, block_size=bs, rtol=1e-15, atol=1e-8,
                                  miter=30, throw_on_fail=True)
    y = solved(intg.solve_strain, t, e, T).detach()
    ctx.describe(model=ref.kind, nb=nb, nt=nt, block_size=bs, adjoint=adj)
    ctx.sig(ref.kind, nb, nt, bs, adj)
    finish(ctx, ref, y)
    dt = t.diff(dim=0)
    er = torch.where(dt > 0, e.diff(dim=0) / dt, torch.zeros_like(dt))
    res = judge(ctx, y, er, dt, T, ref)
    # rounding of the residual grows with the size of its terms
    sc = (dt * ref.E(T)[1:] * er.abs() if ref.E(T).shape == T.shape else dt * ref.E(T) * er.abs())
    tol = 1e-7 + 1e-9 * y[1:].abs() + 1e-9 * sc[..., None]
    ctx.close("residual of the constitutive equations", res / tol, torch.zeros_like(res), rtol=0.0,
              atol=1.0)


@case("P18", 120, 6000)
def stress(ctx):
    """Stress and mixed control"""
    nb, nt = ctx.int(1, 4), ctx.pick(4, 8, 12)
    obj, ref, t, e, T = draw(ctx, nb, nt)
    bs = ctx.pick(1, 2, 3, nt - 1, nt + 4)
    kw = dict(block_size=bs, rtol=1e-15, atol=1e-8, miter=30, throw_on_fail=True)
    intg = models.ModelIntegrator(obj, use_adjoint=ctx.flip(), **kw)
    y = solved(intg.solve_strain, t, e, T).detach()
    finish(ctx, ref, y)
    # loads which are not the response to the strain history
    sig = y[..., 0] * ctx.uni(0.5, 0.95)
    if ctx.flip(0.3):
        k = ctx.int(1, nt - 2)
        sig[k:] = sig[k]  # creep
    c = torch.tensor(ctx.rng.integers(0, 2, size=nb)) if ctx.flip() else torch.ones(nb).long()
    pure = bool((c == 1).all()) and ctx.flip()
    if pure:
        z = solved(intg.solve_stress, t, sig, T).detach()
    else:
        z = solved(intg.solve_both, t, T, torch.where(c == 0, e, sig), c).detach()
    ctx.describe(model=ref.kind, nb=nb, nt=nt, block_size=bs, control=c, pure=pure)
    ctx.sig(ref.kind, nb, nt, bs, tuple(c.tolist()), pure)
    finish(ctx, ref, z)
    eps = torch.where(c == 0, e, z[..., 0])
    y = z.clone()
    y[..., 0] = torch.where(c == 0, z[..., 0], sig)
    dt = t.diff(dim=0)
    er = torch.where(dt > 0, eps.diff(dim=0) / dt, torch.zeros_like(dt))
    move = dt > 0
    ctx.expect(bool((z.diff(dim=0)[~move].abs() < 1e-7).all()), "no change without time")
    res = judge(ctx, y, er, dt, T, ref)
    # at a repeated time the stress may jump by prescription
    res = torch.where(move[..., None], res, torch.zeros_like(res))
    E = ref.E(T)[1:] if ref.E(T).shape == T.shape else ref.E(T)
    # a strain tolerance of 1e-8 shows as stress and, through hardening, as history
    tol = 1e-7 + 1e-6 * y[1:].abs() + 1e-6 * (E * (dt * er).abs())[..., None]
    tol[..., 0] += 5e-8 * E
    tol[..., 1:] += 2e-3 * (c == 1)[None, :, None]
    if "ri(" in ref.kind or "km(" in ref.kind:
        # inner solve with its own tolerance
        sr = y[..., 0].diff(dim=0).abs()
        tol[..., 0] += 1e-5 * sr + 1e-6 * dt + 1e-6 * E
    ctx.close("residual of the constitutive equations", res / tol, torch.zeros_like(res), rtol=0.0,
              atol=1.0)
