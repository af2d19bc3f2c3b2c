"""P15: tension and compression are mirror images"""
import torch

from mon import gens
from mon.common import case, solved, Skip
from mon.p12 import ystate
from mon.p14 import flow_all, hard_all
from pyoptmat import models

RULE = (
    "a component, model or simulation evaluated for a state/load and its mirror image; a case counts "
    "if its (component, shape, mode) signature is new"
)


def mirrored(ctx, a, b, signs, what):
    """Compare dictionaries up to signs"""
    for k, v in a.items():
        if v.numel() == 0:
            continue
        w = b[k] * signs[k]
        ctx.close(f"{what}: {k}", v, w, rtol=1e-10, atol=1e-13 * float(w.abs().max()) + 1e-300)


@case("P15", 1400, 30000)
def flow(ctx):
    """Flow rules"""
    nb = ctx.int(1, 4)
    obj, ref = gens.Gen(ctx, batch=nb).flow(
        ctx.cycle(None, "isokin", "perfect", "super", "km", "softkm", "ri"))
    sh = gens.lead(ctx, nb)
    s, h, t, T, e = gens.point(ctx, sh, ref.n)
    P = torch.tensor(ref.parity)
    ctx.describe(component=ref.kind, shape=list(sh))
    ctx.sig(ref.kind, sh)
    a, b = flow_all(obj, s, h, t, T, e), flow_all(obj, -s, P * h, t, T, -e)
    mirrored(ctx, b, a, {
        "flow": -1.0, "dflow": 1.0, "dflow_dhist": -P, "dflow_derate": 1.0, "hist": P,
        "dhist": P[:, None] * P[None, :], "dhist_ds": -P, "dhist_de": -P}, "mirror image")


@case("P15", 700, 15000)
def hardening(ctx):
    """Hardening models: isotropic hardening does not see the direction, kinematic follows it"""
    nb = ctx.int(1, 4)
    g = gens.Gen(ctx, batch=nb)
    kind = ctx.cycle("voce", "theta", "thetarec", "fa", "farec", "fano", "chab", "chabrec", "super")
    iso = kind in ("voce", "theta", "thetarec")
    obj, ref = (g.isotropic if iso else g.kinematic)(kind)
    sh = gens.lead(ctx, nb)
    s, h, t, T, e = gens.point(ctx, sh, ref.n)
    ep = ctx.logu(1e-6, 1e-1, *sh) * torch.tensor(ctx.rng.choice([-1.0, 1.0], size=sh))
    p = 1.0 if iso else -1.0
    ctx.describe(component=kind, shape=list(sh))
    ctx.sig(kind, sh, ref.n)
    a, b = hard_all(obj, s, h, t, ep, T, e), hard_all(obj, -s, p * h, t, -ep, T, -e)
    mirrored(ctx, b, a, {"value": p, "dvalue": 1.0, "rate": p, "drate_dh": 1.0, "drate_dep": -p,
                         "drate_ds": -p, "drate_de": -p}, "mirror image")


@case("P15", 400, 8000)
def damage(ctx):
    """Damage does not see the sign of the stress"""
    nb = ctx.int(1, 4)
    obj, ref = gens.Gen(ctx, batch=nb).damage(ctx.cycle("none", "hl", "const", "lm"))
    sh = gens.lead(ctx, nb)
    s, _, t, T, e = gens.point(ctx, sh, 0)
    d = ctx.uni(0.0, 0.9, *sh)
    ctx.describe(component=ref.kind, shape=list(sh))
    ctx.sig(ref.kind, sh, round(float(d.mean()), 3))
    f = lambda s, e: dict(zip(("rate", "d/dd"), obj.damage_rate(s, d, t, T, e))) | {
        "d/ds": obj.d_damage_rate_d_s(s, d, t, T, e)}
    mirrored(ctx, f(-s, -e), f(s, e), {"rate": 1.0, "d/dd": 1.0, "d/ds": -1.0}, "mirror image")


@case("P15", 800, 15000)
def model(ctx):
    """Complete models"""
    nb = ctx.int(1, 4)
    obj, ref = gens.Gen(ctx, batch=nb).model()
    sh = gens.lead(ctx, nb)
    y, t, T, e = ystate(ctx, sh, ref)
    P = torch.tensor([-1.0] + list(ref.fr.parity) + ([1.0] if ref.damaged else []))
    ctx.describe(model=ref.kind, shape=list(sh))
    ctx.sig(ref.kind, sh)
    f = lambda y, e: dict(zip(("rate", "d/dstate", "d/drate"), obj(t, y, e, T)[:3]))
    mirrored(ctx, f(P * y, -e), f(y, e),
             {"rate": P, "d/dstate": P[:, None] * P[None, :], "d/drate": -P}, "mirror image")


@case("P15", 50, 2500)
def simulated(ctx):
    """Mirrored tests have mirrored responses"""
    nb, nt = ctx.int(1, 4), ctx.pick(4, 8, 12)
    g = gens.Gen(ctx, batch=nb)
    obj, ref = g.model(flow=g.isokin() if ctx.flip(0.7) else None, dkind=ctx.pick("hl", "const", "none"))
    P = torch.tensor([-1.0] + list(ref.fr.parity) + ([1.0] if ref.damaged else []))
    t, e, T = gens.history(ctx, nt, nb, emax=0.01)
    intg = models.ModelIntegrator(
        obj, use_adjoint=ctx.flip(), block_size=ctx.pick(1, 3, nt + 4), rtol=1e-15, atol=1e-8,
        miter=30, throw_on_fail=True)
    y = solved(intg.solve_strain, t, e, T).detach()
    if not torch.isfinite(y).all() or (ref.damaged and float(y[..., -1].max()) > 0.5):
        raise Skip
    mode = ctx.cycle("strain", "stress", "both")
    ctx.describe(model=ref.kind, nb=nb, nt=nt, mode=mode)
    ctx.sig(ref.kind, nb, nt, mode)
    if mode == "strain":
        a, b = y, solved(intg.solve_strain, t, -e, T).detach()
    elif mode == "stress":
        if "km(" in ref.kind:
            raise Skip
        a = solved(intg.solve_stress, t, y[..., 0], T).detach()
        b = solved(intg.solve_stress, t, -y[..., 0], T).detach()
    else:
        if "km(" in ref.kind:
            raise Skip
        c = torch.tensor(ctx.rng.integers(0, 2, size=nb))
        d = torch.where(c == 0, e, y[..., 0])
        sg = torch.tensor(ctx.rng.choice([-1.0, 1.0], size=nb))
        a = solved(intg.solve_both, t, T, d, c).detach()
        b = solved(intg.solve_both, t, T, d * sg, c).detach()
        P = torch.where(sg[:, None] > 0, torch.ones_like(P), P)
    ctx.close("mirrored response", b, a * P, rtol=1e-6, scale=a.abs().amax(0), atol=1e-6)
