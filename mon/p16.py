"""P16: physical bounds of the constitutive response"""
import torch

from mon import gens
from mon.common import case, solved, Skip
from pyoptmat import damage, flowrules, models, temperature

RULE = (
    "random components and simulated load histories, every state and every step monitored for the "
    "bounds; a case counts if its (component or model, shape, load) signature is new"
)


@case("P16", 2500, 50000)
def flow(ctx):
    """Flow follows the overstress and vanishes inside of the yield surface"""
    nb = ctx.int(1, 4)
    obj, ref = gens.Gen(ctx, batch=nb).isokin(n=None)
    sh = gens.lead(ctx, nb)
    s, h, t, T, e = gens.point(ctx, sh, ref.n)
    x = ref.kin.value(h[..., 1:])
    if ctx.flip(0.4):
        s = x + ctx.uni(-60.0, 60.0, *sh)
    f, df = obj.flow_rate(s, h, t, T, e)
    over = ref.over(s, h, T)
    ctx.describe(component=ref.kind, shape=list(sh))
    ctx.sig(ref.kind, sh, int((over > 0).sum()))
    ctx.saw("states below yield", int((over <= 0).sum()))
    ctx.saw("states above yield", int((over > 0).sum()))
    ctx.expect(bool((f[over <= 0] == 0).all()), "no flow inside of the yield surface",
               flow=f, overstress=over)
    ctx.expect(bool((df[over <= 0] == 0).all()), "no stiffness change inside of the yield surface")
    ctx.expect(bool(((s - x) * f >= 0).all()), "inelastic dissipation is not negative",
               flow=f, overstress=over)
    ctx.expect(bool((f[over > 1e-6] != 0).all()), "flow outside of the yield surface")
    # more overstress, more flow
    k = 1.0 + ctx.uni(0.01, 1.0)
    g = obj.flow_rate(x + (s - x) * k, h, t, T, e)[0]
    ctx.expect(bool((g.abs() >= f.abs()).all()), "flow grows with the overstress")
    ctx.expect(bool((df >= 0).all()), "flow grows with the stress")


@case("P16", 500, 10000)
def damages(ctx):
    """Damage never heals"""
    nb = ctx.int(1, 4)
    obj, ref = gens.Gen(ctx, batch=nb).damage(ctx.cycle("none", "hl", "const", "lm"))
    sh = gens.lead(ctx, nb)
    s, _, t, T, e = gens.point(ctx, sh, 0)
    d = ctx.uni(0.0, 0.99, *sh)
    ctx.describe(component=ref.kind, shape=list(sh))
    ctx.sig(ref.kind, sh, round(float(d.mean()), 3))
    r = obj.damage_rate(s, d, t, T, e)[0]
    ctx.expect(bool((r >= 0).all()), "damage rate is not negative", rate=r)
    if ref.kind == "none":
        ctx.expect(bool((r == 0).all()), "no damage")


@case("P16", 200, 6000)
def simulated(ctx):
    """Bounds along backward Euler simulations"""
    nb, nt = ctx.int(1, 4), ctx.pick(5, 9, 16)
    g = gens.Gen(ctx, batch=nb)
    fl = g.isokin(iso=ctx.pick("voce", "theta"), kin=ctx.pick("none", "fano", "fa", "chab", "super"))
    obj, ref = g.model(flow=fl)
    cyc = ctx.flip()
    t, e, T = gens.history(ctx, nt, nb, emax=0.02, repeats=ctx.flip(0.2), reversals=cyc)
    intg = models.ModelIntegrator(
        obj, use_adjoint=ctx.flip(), block_size=ctx.pick(1, 3, nt + 4), rtol=1e-15, atol=1e-8,
        miter=30, throw_on_fail=True)
    y = solved(intg.solve_strain, t, e, T).detach()
    ctx.describe(model=ref.kind, nb=nb, nt=nt, cyclic=cyc)
    ctx.sig(ref.kind, nb, nt, cyc)
    fr = ref.fr
    if ref.damaged:
        d = y[..., -1]
        if float(d.max()) > 0.8:
            raise Skip
        ctx.saw("damaged steps", int((d.diff(dim=0) > 1e-9).sum()))
        ctx.expect(bool((d[0] == 0).all()), "simulations start undamaged")
        ctx.expect(bool((d.diff(dim=0) >= -1e-7).all()), "damage never heals", damage=d)
        se, h = y[..., 0] / (1 - d), y[..., 1:-1]
    else:
        se, h = y[..., 0], y[..., 1:]
    # isotropic hardening saturates
    sat = fr.iso.sat(T).expand(T.shape).amax(0)
    ctx.expect(bool((h[..., 0] >= -1e-6).all()), "isotropic hardening is not negative")
    ctx.expect(bool((h[..., 0] <= sat + 1e-5 * sat + 1e-5).all()),
               "isotropic hardening stays below saturation", hardening=h[..., 0], limit=sat)
    ctx.expect(bool((h[..., 0].diff(dim=0) >= -1e-5 * sat).all())
               or bool((T.diff(dim=0) != 0).any()), "isotropic hardening does not soften")
    ctx.saw("hardening steps", int((h[..., 0].diff(dim=0) > 1e-6).sum()))
    # backstresses saturate
    if fr.kin.bound and fr.kin.monotone:
        for i, b in enumerate(fr.kin.bound):
            lim = b(T).expand(T.shape).abs().amax(0)
            ctx.saw("backstress histories")
            ctx.expect(bool((h[..., 1 + i].abs() <= lim * (1 + 1e-5) + 1e-5).all()),
                       "backstress stays within its limit", backstress=h[..., 1 + i], limit=lim)
    # dissipation, from the response alone (constant temperature)
    dt = t.diff(dim=0)
    de = e.diff(dim=0)
    ok = dt > 0
    if not ref.damaged:
        inel = de - y[..., 0].diff(dim=0) / ref.E(T)[1:] if ref.E(T).dim() and ref.E(T).shape == T.shape \
            else de - y[..., 0].diff(dim=0) / ref.E(T)
        w = (se - fr.kin.value(h[..., 1:]))[1:] * inel
        ctx.saw("inelastic steps", int((inel.abs() > 1e-8).sum()))
        ctx.expect(bool((w[ok] >= -1e-6).all()), "inelastic dissipation is not negative", w=w)


@case("P16", 120, 4000)
def elastic(ctx):
    """Below the yield stress the response is linear elastic; no load, no response"""
    nb, nt = ctx.int(1, 4), ctx.pick(3, 8, 14)
    g = gens.Gen(ctx, batch=nb)
    iso, kin = g.isotropic(ctx.pick("voce", "theta")), g.kinematic()
    (n, _), (eta, _), (E, rE) = g.p(1.0, 8.0), g.p(50.0, 200.0), g.p(5e4, 2e5)
    s0 = temperature.ConstantParameter(torch.tensor(1e5))
    fl = flowrules.IsoKinViscoplasticity(n, eta, s0, iso[0], kin[0])
    dam = ctx.flip(0.3)
    obj = models.DamagedInelasticModel(E, fl, dmodel=damage.NoDamage()) if dam else \
        models.InelasticModel(E, fl)
    method = ctx.pick("backward-euler", "backward-euler", "forward-euler")
    t, e, T = gens.history(ctx, nt, nb, emax=0.02,
                           repeats=method == "backward-euler" and ctx.flip(0.5))
    T = T[:1].expand(nt, nb).contiguous()
    intg = models.ModelIntegrator(obj, use_adjoint=ctx.flip(), method=method,
                                  block_size=ctx.pick(1, 3, nt + 4), throw_on_fail=True)
    mode = ctx.cycle("strain", "stress", "both", "rest")
    ctx.describe(nb=nb, nt=nt, mode=mode, method=method, kin=kin[1].kind)
    ctx.sig(nb, nt, mode, method, kin[1].kind, iso[1].kind)
    Ev = rE(T).expand(T.shape)
    if mode == "rest":
        for y in (intg.solve_strain(t, e * 0, T), intg.solve_stress(t, e * 0, T)):
            ctx.expect(bool((y == 0).all()), "without load there is no response")
        return
    c = {"strain": torch.zeros(nb), "stress": torch.ones(nb),
         "both": torch.tensor(ctx.rng.integers(0, 2, size=nb))}[mode].long()
    data = torch.where(c == 0, e, e * Ev)
    if mode == "strain":
        y = intg.solve_strain(t, data, T)
    elif mode == "stress":
        y = intg.solve_stress(t, data, T)
    else:
        y = intg.solve_both(t, T, data, c)
    y = y.detach()
    want = torch.where(c == 0, e * Ev, e)
    if method == "forward-euler":
        # the rate of a step is the one at its start
        rate = torch.zeros_like(want)
        dt = t.diff(dim=0)
        r = torch.where(dt > 0, want.diff(dim=0) / dt, torch.zeros_like(dt))
        rate[1:] = r
        want = torch.cat([want[:1], (rate[:-1] * dt).cumsum(0)])
    ctx.close("elastic response", y[..., 0], want, rtol=1e-6, scale=want.abs().amax(0), atol=1e-9)
    ctx.expect(bool((y[..., 1:] == 0).all()), "elastic loads leave no trace")
