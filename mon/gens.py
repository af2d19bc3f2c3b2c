"""
Random constitutive models: each generator returns a pair, the object built from
the code under test and an independently written reference of what its
documentation says it computes (plain closures over torch tensors).
"""
# pylint: disable=unnecessary-lambda-assignment
import torch
from torch import nn

from pyoptmat import damage, flowrules, hardening, models, scaling, temperature

TLO, THI = 300.0, 1000.0


class Ref:
    """Attribute bag"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


# --------------------------------------------------------------------------
# Temperature dependent parameters


def U(ctx, lo, hi, *shape):
    """Uniform tensor, also without shape"""
    return torch.as_tensor(ctx.uni(lo, hi, *shape), dtype=torch.float64)


def tparam(ctx, lo, hi, shape=(), kinds=None, P=lambda x: x):
    """
    A temperature parameter staying within [lo,hi] on [TLO,THI]

    P wraps the raw tensors (e.g. into nn.Parameter)
    """
    kind = ctx.pick(*(kinds or ("const", "const", "const_scaled", "outer", "poly",
                                "piece", "arr", "iarr", "shear")))
    w = hi - lo
    if kind == "const":
        v = P(U(ctx, lo, hi, *shape))
        return temperature.ConstantParameter(v), lambda T: v, kind
    if kind == "const_scaled":
        v = P(U(ctx, 0.05, 0.95, *shape))
        sf = scaling.BoundedScalingFunction(torch.tensor(lo), torch.tensor(hi))
        return (temperature.ConstantParameter(v, p_scale=sf.scale),
                lambda T: v * (hi - lo) + lo, kind)
    if kind == "outer":
        v = P(U(ctx, lo, hi, *shape) / 3.0)
        return (temperature.ConstantParameter(v, scaling=lambda x: 3.0 * x),
                lambda T: 3.0 * v, kind)
    if kind == "poly":
        a = U(ctx, lo + 0.4 * w, lo + 0.6 * w, *shape)
        b = U(ctx, -0.2, 0.2, *shape) * w / (THI - TLO)
        c = P(torch.stack([b, a - b * (THI + TLO) / 2.0]))
        return temperature.PolynomialScaling(c), lambda T: c[0] * T + c[1], kind
    if kind == "piece":
        n = ctx.int(2, 5)
        ctrl = torch.linspace(TLO, THI, n)
        if n > 2:
            ctrl[1:-1] += U(ctx, -30.0, 30.0, n - 2)
        v = P(U(ctx, lo, hi, *shape, n))

        def ref(T):
            res = torch.zeros_like(T)
            for i in range(n - 1):
                m = (T >= ctrl[i]) & ((T < ctrl[i + 1]) | (i == n - 2))
                f = (T - ctrl[i]) / (ctrl[i + 1] - ctrl[i])
                res = torch.where(m, v[..., i] * (1 - f) + v[..., i + 1] * f, res)
            return res

        return temperature.PiecewiseScaling(ctrl, v), ref, kind
    if kind == "arr":
        q = P(U(ctx, 1.0, 100.0, *shape))
        a = P(U(ctx, lo + 0.5 * w, hi, *shape))
        return (temperature.ArrheniusScaling(a, q), lambda T: a * torch.exp(-q / T), kind)
    if kind == "iarr":
        q = P(U(ctx, 1500.0, 4000.0, *shape))
        a = P(U(ctx, lo + 0.5 * w, hi, *shape))
        return (temperature.InverseArrheniusScaling(a, q),
                lambda T: a * (1.0 - torch.exp(-q / T)), kind)
    if kind == "shear":
        m, rm, _ = tparam(ctx, 40.0, 80.0, shape=(), kinds=("const", "poly", "outer"))
        a = P(U(ctx, lo + 0.4 * w, hi - 0.3 * w, *shape) / 60.0)
        return temperature.ShearModulusScaling(a, m), lambda T: a * rm(T), kind
    raise ValueError(kind)


class Gen:
    """Draws model components.  With batch=n some parameters differ per batch member"""

    def __init__(self, ctx, batch=None, P=lambda x: x, kinds=None, smooth=False, pbatch=0.5,
                 fracrec=True, unitn=True):
        self.ctx = ctx
        self.batch = batch
        self.P = P
        self.kinds = kinds
        self.smooth = smooth
        self.fracrec = fracrec  # recovery exponents below two
        self.unitn = unitn
        self.pbatch = pbatch

    def p(self, lo, hi, kinds=None):
        """A parameter"""
        sh = ()
        if self.batch is not None and self.ctx.flip(self.pbatch):
            sh = (self.batch,)
        tp, ref, _ = tparam(self.ctx, lo, hi, sh, kinds or self.kinds, self.P)
        return tp, ref

    # -- hardening
    def isotropic(self, kind=None):
        """Isotropic hardening: Ref(value, rate, n)"""
        kind = kind or self.ctx.pick("voce", "theta", "thetarec")
        if kind == "voce":
            (R, r), (d, rd) = self.p(20.0, 150.0), self.p(1.0, 20.0)
            obj = hardening.VoceIsotropicHardeningModel(R, d)
            rate = lambda h, ep, T: (rd(T) * (r(T) - h[..., 0]) * ep.abs())[..., None]
            ref = Ref(sat=r)
        elif kind == "theta":
            (R, r), (d, rd) = self.p(20.0, 150.0), self.p(200.0, 2000.0)
            obj = hardening.Theta0VoceIsotropicHardeningModel(R, d)
            rate = lambda h, ep, T: (rd(T) * (1 - h[..., 0] / r(T)) * ep.abs())[..., None]
            ref = Ref(sat=r)
        else:
            (R, r), (d, rd) = self.p(20.0, 150.0), self.p(200.0, 2000.0)
            (z, rz), (a, ra) = self.p(0.0, 10.0), self.p(1e-6, 1e-4)
            m, rm = self.p(1.3 if self.fracrec else 2.0, 3.0)
            obj = hardening.Theta0RecoveryVoceIsotropicHardeningModel(R, d, z, a, m)

            def rate(h, ep, T):
                x = rz(T) - h[..., 0]
                return (rd(T) * (1 - h[..., 0] / r(T)) * ep.abs()
                        + ra(T) * torch.sign(x) * x.abs() ** rm(T))[..., None]

            ref = Ref(sat=None)
        ref.__dict__.update(kind=kind, n=1, value=lambda h: h[..., 0], rate=rate)
        return obj, ref

    def kinematic(self, kind=None, depth=0):
        """Kinematic hardening: Ref(value, rate, n)"""
        opts = ["none", "fa", "farec", "fano", "chab", "chabrec"]
        if depth < 1:
            opts.append("super")
        kind = kind or self.ctx.pick(*opts)
        bound = None
        if kind == "none":
            obj, n = hardening.NoKinematicHardeningModel(), 0
            rate = lambda h, ep, T: torch.zeros_like(h)
            bound = []
        elif kind in ("fa", "farec", "fano"):
            (C, rC), (g, rg) = self.p(1e3, 2e4), self.p(20.0, 200.0)
            n = 1
            if kind == "fa":
                obj = hardening.FAKinematicHardeningModel(C, g)
                rate = lambda h, ep, T: (rC(T) * ep - rg(T) * h[..., 0] * ep.abs())[..., None]
                bound = [lambda T: rC(T) / rg(T)]
            elif kind == "fano":
                obj = hardening.FAKinematicHardeningModelNoRecovery(C, g)
                rate = lambda h, ep, T: (rC(T) * ep - rg(T) * h[..., 0] * ep.abs())[..., None]
                bound = [lambda T: rC(T) / rg(T)]
            else:
                (b, rb) = self.p(1e-6, 1e-4)
                (r, rr) = self.p(1.3 if self.fracrec else 2.0, 3.0)
                obj = hardening.FAKinematicHardeningModel(C, g, b, r)
                rate = lambda h, ep, T: (
                    rC(T) * ep - rg(T) * h[..., 0] * ep.abs()
                    - rb(T) * torch.sign(h[..., 0]) * h[..., 0].abs() ** rr(T))[..., None]
                bound = [lambda T: rC(T) / rg(T)]
        elif kind in ("chab", "chabrec"):
            n = self.ctx.int(1, 4)
            sh = (n,)
            if self.batch is not None and self.ctx.flip(self.pbatch):
                sh = (self.batch, n)
            k = ("const", "const_scaled", "outer")
            C, rC, _ = tparam(self.ctx, 1e3, 2e4, sh, k, self.P)
            g, rg, _ = tparam(self.ctx, 20.0, 200.0, sh, k, self.P)
            bound = [(lambda T, i=i: rC(T)[..., i] / rg(T)[..., i]) for i in range(n)]
            if kind == "chab":
                obj = hardening.ChabocheHardeningModel(C, g)
                rate = lambda h, ep, T: rC(T) * ep[..., None] - rg(T) * h * ep.abs()[..., None]
            else:
                b, rb, _ = tparam(self.ctx, 1e-6, 1e-4, sh, k, self.P)
                r, rr, _ = tparam(self.ctx, 1.3 if self.fracrec else 2.0, 3.0, sh, k, self.P)
                obj = hardening.ChabocheHardeningModelRecovery(C, g, b, r)
                rate = lambda h, ep, T: (
                    rC(T) * ep[..., None] - rg(T) * h * ep.abs()[..., None]
                    - rb(T) * torch.sign(h) * h.abs() ** rr(T))
        else:
            subs = [self.kinematic(depth=depth + 1) for _ in range(self.ctx.int(1, 3))]
            obj = hardening.SuperimposedKinematicHardening([s[0] for s in subs])
            refs = [s[1] for s in subs]
            n = sum(r.n for r in refs)

            def rate(h, ep, T):
                out, o = [], 0
                for r in refs:
                    out.append(r.rate(h[..., o:o + r.n], ep, T))
                    o += r.n
                return torch.cat(out, -1)

            bound = sum([r.bound for r in refs], [])
        return obj, Ref(kind=kind, n=n, value=lambda h: h.sum(-1), rate=rate, bound=bound,
                        monotone=kind in ("none", "fa", "fano", "chab"))

    # -- flow rules: Ref(flow(s,h,T,e), hist(s,h,T,e), n)
    def isokin(self, iso=None, kin=None, n=None):
        """Viscoplasticity with isotropic/kinematic hardening"""
        nn_, rn = n or self.p(*self.ctx.pick((2.0, 8.0), (2.0, 5.0)))
        (eta, reta), (s0, rs0) = self.p(50.0, 200.0), self.p(0.0, 50.0)
        (iso, ri), (kin, rk) = self.isotropic(iso), self.kinematic(kin)
        obj = flowrules.IsoKinViscoplasticity(nn_, eta, s0, iso, kin)

        def over(s, h, T):
            return (s - rk.value(h[..., 1:])).abs() - rs0(T) - ri.value(h[..., :1])

        def flow(s, h, T, e):
            x = over(s, h, T) / reta(T)
            return torch.where(x > 0, x.clamp(min=1e-300) ** rn(T), torch.zeros_like(x)) * \
                torch.sign(s - rk.value(h[..., 1:]))

        def hist(s, h, T, e):
            ep = flow(s, h, T, e)
            return torch.cat([ri.rate(h[..., :1], ep, T), rk.rate(h[..., 1:], ep, T)], -1)

        return obj, Ref(kind=f"isokin({ri.kind},{rk.kind})", n=1 + rk.n, flow=flow, hist=hist,
                        over=over, iso=ri, kin=rk, eta=reta, parts=None,
                        parity=[1.0] + [-1.0] * rk.n)

    def perfect(self):
        """Perfect viscoplasticity"""
        (n, rn), (eta, reta) = self.p(2.0, 8.0), self.p(50.0, 300.0)
        return flowrules.PerfectViscoplasticity(n, eta), Ref(
            kind="perfect", n=0,
            flow=lambda s, h, T, e: torch.sign(s) * (s.abs() / reta(T)) ** rn(T),
            hist=lambda s, h, T, e: torch.zeros_like(h), over=None, parity=[])

    def superimposed(self, depth):
        """Sum of flow rules"""
        subs = [self.flow(depth=depth + 1) for _ in range(self.ctx.int(1, 3))]
        refs = [s[1] for s in subs]

        def split(h):
            out, o = [], 0
            for r in refs:
                out.append(h[..., o:o + r.n])
                o += r.n
            return out

        return flowrules.SuperimposedFlowRule([s[0] for s in subs]), Ref(
            kind="super(" + ",".join(r.kind for r in refs) + ")", n=sum(r.n for r in refs),
            flow=lambda s, h, T, e: sum(r.flow(s, x, T, e) for r, x in zip(refs, split(h))),
            hist=lambda s, h, T, e: torch.cat(
                [r.hist(s, x, T, e) for r, x in zip(refs, split(h))], -1),
            over=None, parity=sum([r.parity for r in refs], []))

    def km(self, soft, depth):
        """Kocks-Mecking switch or blend of two models"""
        ctx = self.ctx
        if ctx.flip(0.3):
            a, b = self.perfect(), self.perfect()
        else:
            k = ctx.pick("none", "fa", "fano", "farec")
            k2 = "none" if k == "none" else ctx.pick("fa", "fano", "farec")
            a, b = self.isokin(kin=k), self.isokin(kin=k2)
            if ctx.flip(0.2):
                a = self.rateindep(1, base=a)
        mu, rmu, mk = tparam(ctx, 5e4, 8e4, (), ("const", "poly", "outer"))
        bv, kv = torch.tensor(2.48e-7), torch.tensor(1.38064e-20)
        e0 = torch.tensor(ctx.logu(1e6, 1e9))
        eps = torch.tensor(1e-20)

        def g(T, e):
            return kv * T / (rmu(T) * bv ** 3) * torch.log(e0 / (e.abs() + eps))

        # threshold somewhere in the reachable range
        g0 = torch.tensor(float(g(torch.tensor(ctx.uni(TLO, THI)),
                                  torch.tensor(ctx.logu(1e-5, 1e-2)))))
        kw, g0v = {}, g0
        if ctx.flip(0.4):
            kw["g0_scale"] = lambda x: x * 2.0
            g0v = g0 / 2.0
        if not soft:
            obj = flowrules.KocksMeckingRegimeFlowRule(
                a[0], b[0], g0v, mu, bv, e0, kv, eps=eps, **kw)

            def mix(f, s, h, T, e):
                x, y = getattr(a[1], f)(s, h, T, e), getattr(b[1], f)(s, h, T, e)
                m = (g(T, e) > g0).expand(s.shape)
                if x.dim() > s.dim():
                    m = m[..., None].expand(x.shape)
                return torch.where(m, y, x)
        else:
            sf = torch.tensor(ctx.uni(2.0, 30.0))
            obj = flowrules.SoftKocksMeckingRegimeFlowRule(
                a[0], b[0], g0v, mu, bv, e0, kv, sf, eps=eps, **kw)

            def mix(f, s, h, T, e):
                x, y = getattr(a[1], f)(s, h, T, e), getattr(b[1], f)(s, h, T, e)
                m = (torch.tanh(sf * (g(T, e) - g0)) + 1.0) / 2.0
                m = m.expand(s.shape)
                if x.dim() > s.dim():
                    m = m[..., None]
                return x * (1 - m) + y * m

        return obj, Ref(
            kind=("softkm(" if soft else "km(") + f"{a[1].kind},{b[1].kind},{mk})", n=a[1].n,
            flow=lambda *x: mix("flow", *x), hist=lambda *x: mix("hist", *x), over=None,
            g=g, g0=g0, subs=(a, b), parity=a[1].parity)

    def rateindep(self, depth, base=None):
        """Rate independent wrapper"""
        ctx = self.ctx
        o, r = base or self.flow(depth=depth + 1)
        lam = torch.tensor(ctx.pick(0.0, 0.3, 0.9, 0.99, 1.0))
        er = torch.tensor(ctx.logu(1e-4, 1e-2))
        sc = lambda e: 1 - lam + lam * e.abs() / er
        return flowrules.RateIndependentFlowRuleWrapper(o, lam, er), Ref(
            kind=f"ri({r.kind})", n=r.n,
            flow=lambda s, h, T, e: sc(e) * r.flow(s, h, T, e),
            hist=lambda s, h, T, e: sc(e)[..., None] * r.hist(s, h, T, e), over=None,
            parity=r.parity)

    def flow(self, kind=None, depth=0):
        """Any flow rule"""
        opts = ["isokin", "isokin", "isokin", "perfect"]
        if depth < 2:
            opts += ["super", "km", "softkm", "ri"]
        kind = kind or self.ctx.pick(*opts)
        if kind == "isokin":
            return self.isokin()
        if kind == "perfect":
            return self.perfect()
        if kind == "super":
            return self.superimposed(depth)
        if kind == "ri":
            return self.rateindep(depth)
        return self.km(kind == "softkm", depth)

    # -- damage: Ref(rate(s,d,T))
    def damage(self, kind=None):
        """Any damage model"""
        kind = kind or self.ctx.pick("none", "hl", "const", "lm")
        if kind == "none":
            return damage.NoDamage(), Ref(kind=kind, rate=lambda s, d, T: torch.zeros_like(s))
        if kind == "const":
            R, r = self.p(1e-5, 1e-3)
            return damage.ConstantDamage(R), Ref(
                kind=kind, rate=lambda s, d, T: torch.zeros_like(s) + r(T))
        if kind == "hl":
            (A, a), (x, xi), (f, phi) = self.p(500., 1500.), self.p(2., 5.), self.p(0.5, 3.)
            return damage.HayhurstLeckie(A, x, f), Ref(
                kind=kind,
                rate=lambda s, d, T: (s.abs() / a(T)) ** xi(T) * (1 - d) ** (xi(T) - phi(T)))
        # exponent -A/T in about (2, 6): A in (-6 T, -2 T)
        C, c = self.p(-19.0, -17.0, ("const", "const_scaled", "outer"))
        A, a = self.p(-2000.0, -1200.0, ("const", "const_scaled", "outer"))
        B, b = self.p(0.0, 1000.0, ("const", "const_scaled", "outer"))
        return damage.LarsonMillerDamage(C, A, B), Ref(
            kind=kind,
            rate=lambda s, d, T: 10.0 ** (c(T) - b(T) / T)
            * (s.abs() * (1 - d)) ** (-a(T) / T))

    # -- full models
    def model(self, damaged=None, flow=None, E=(5e4, 2e5), dkind=None):
        """A full material model: Ref(rate(y,e,T), n)"""
        damaged = self.ctx.flip() if damaged is None else damaged
        fo, fr = flow or self.flow()
        Eo, Er = self.p(*E)
        if not damaged:
            obj = models.InelasticModel(Eo, fo)

            def rate(y, e, T):
                s, h = y[..., 0], y[..., 1:]
                return torch.cat([(Er(T) * (e - fr.flow(s, h, T, e)))[..., None],
                                  fr.hist(s, h, T, e)], -1)

            return obj, Ref(kind=f"inelastic[{fr.kind}]", n=1 + fr.n, rate=rate, E=Er, fr=fr,
                            damaged=False)
        do, dr = self.damage(dkind)
        obj = models.DamagedInelasticModel(Eo, fo, dmodel=do)

        def rated(y, e, T):
            d = y[..., -1]
            s, h = y[..., 0] / (1 - d), y[..., 1:-1]
            return torch.cat([((1 - d) * Er(T) * (e - fr.flow(s, h, T, e)))[..., None],
                              fr.hist(s, h, T, e), dr.rate(s, d, T)[..., None]], -1)

        return obj, Ref(kind=f"damaged[{fr.kind};{dr.kind}]", n=2 + fr.n, rate=rated, E=Er,
                        fr=fr, damaged=True, dr=dr)


# --------------------------------------------------------------------------
# Components a user could write: they use every argument and derivative of the interface


class UserIsotropic(hardening.IsotropicHardeningModel):
    """Two internal variables which depend on everything, weighted in the yield stress"""

    def __init__(self, ctx):
        super().__init__()
        self.w = ctx.uni(0.2, 1.5, 2)
        self.a, self.b, self.c = ctx.uni(100.0, 900.0, 2), ctx.uni(1.0, 9.0, 2), ctx.uni(1e-3, 1e-2, 2)
        self.q = ctx.uni(5.0, 50.0, 2)

    nhist = 2

    def value(self, h):
        """Weighted sum"""
        return (self.w * h).sum(-1)

    def dvalue(self, h):
        """Weights"""
        return self.w.expand(h.shape)

    def history_rate(self, s, h, t, ep, T, e):
        """Hardening with cross coupling, recovery by stress and by total rate"""
        return (self.a * ep[..., None] ** 2 - self.b * h * ep.abs()[..., None] - self.c * h.flip(-1)
                + self.c * s[..., None] ** 2 * 1e-2 + self.q * e[..., None] ** 2 * 1e3)

    def dhistory_rate_dstress(self, s, h, t, ep, T, e):
        """Partial derivative"""
        return 2e-2 * self.c * s[..., None] + 0 * h

    def dhistory_rate_dhistory(self, s, h, t, ep, T, e):
        """Partial derivative"""
        return torch.diag_embed(-self.b * ep.abs()[..., None] + 0 * h) - torch.diag(self.c).flip(-1)

    def dhistory_rate_derate(self, s, h, t, ep, T, e):
        """Partial derivative"""
        return (2 * self.a * ep[..., None] - self.b * h * torch.sign(ep)[..., None])[..., None]

    def dhistory_rate_dtotalrate(self, s, h, t, ep, T, e):
        """Partial derivative"""
        return 2e3 * self.q * e[..., None] + 0 * h


class UserKinematic(hardening.KinematicHardeningModel):
    """Like the above, one of the variables does not act on the backstress"""

    def __init__(self, ctx):
        super().__init__()
        self.w = torch.tensor([1.0, 0.0, ctx.uni(0.3, 2.0)])
        self.a, self.b, self.c = ctx.uni(1e3, 9e3, 3), ctx.uni(10.0, 90.0, 3), ctx.uni(1e-3, 1e-2, 3)
        self.q = ctx.uni(5.0, 50.0, 3)

    nhist = 3

    def value(self, h):
        """Weighted sum"""
        return (self.w * h).sum(-1)

    def dvalue(self, h):
        """Weights"""
        return self.w.expand(h.shape)

    def history_rate(self, s, h, t, ep, T, e):
        """Hardening, cross coupling, stress, total rate"""
        return (self.a * ep[..., None] - self.b * h * ep.abs()[..., None] - self.c * h.roll(1, -1)
                + self.c * s[..., None] + self.q * e[..., None])

    def dhistory_rate_dstress(self, s, h, t, ep, T, e):
        """Partial derivative"""
        return self.c.expand(h.shape)

    def dhistory_rate_dhistory(self, s, h, t, ep, T, e):
        """Partial derivative"""
        return torch.diag_embed(-self.b * ep.abs()[..., None] + 0 * h) - torch.diag(self.c).roll(-1, -1)

    def dhistory_rate_derate(self, s, h, t, ep, T, e):
        """Partial derivative"""
        return (self.a - self.b * h * torch.sign(ep)[..., None])[..., None]

    def dhistory_rate_dtotalrate(self, s, h, t, ep, T, e):
        """Partial derivative"""
        return self.q.expand(h.shape)


class UserDamage(damage.DamageModel):
    """Depends on stress, damage and total strain rate"""

    def __init__(self, ctx):
        super().__init__()
        self.a, self.b = ctx.uni(1e-4, 1e-3), ctx.uni(0.5, 3.0)

    def damage_rate(self, s, d, t, T, e):
        """Rate, derivative by damage"""
        x = self.a * (1 + (s / 100.0) ** 2 + 1e4 * e ** 2 + 1e2 * e)
        return x * torch.exp(self.b * d), self.b * x * torch.exp(self.b * d)

    def d_damage_rate_d_s(self, s, d, t, T, e):
        """Partial derivative"""
        return self.a * 2 * s / 1e4 * torch.exp(self.b * d)

    def d_damage_rate_d_e(self, s, d, t, T, e):
        """Partial derivative"""
        return self.a * (2e4 * e + 1e2) * torch.exp(self.b * d)


# --------------------------------------------------------------------------
# Load histories


def history(ctx, ntime, nbatch, emax=0.02, temps=True, repeats=False, reversals=True):
    """times, strains, temperatures of shape (ntime,nbatch), starting from zero strain"""
    dt = ctx.logu(0.3, 3.0, ntime - 1, nbatch) * ctx.logu(1.0, 50.0)
    if repeats:
        dt[torch.tensor(ctx.rng.random((ntime - 1, nbatch)) < 0.2)] = 0.0
    times = torch.cat([torch.zeros(1, nbatch), dt.cumsum(0)])
    if ctx.flip(0.3):
        times = times + ctx.uni(-20.0, 20.0, nbatch)  # every test has its own clock
    if reversals:
        rate = ctx.normal(ntime - 1, nbatch)
        knots = ctx.int(1, 3)
        sign = torch.ones(ntime - 1, nbatch)
        for _ in range(knots):
            k = ctx.int(0, ntime - 2)
            sign[k:] *= -1
        rate = rate.abs().clamp(min=0.1) * sign
        hold = torch.tensor(ctx.rng.random((ntime - 1, nbatch)) < 0.15)
        rate[hold] = 0.0
    else:
        rate = ctx.uni(0.3, 1.0, ntime - 1, nbatch)
    inc = rate * dt
    strain = torch.cat([torch.zeros(1, nbatch), inc.cumsum(0)])
    peak = strain.abs().max(0)[0].clamp(min=1e-12)
    strain = strain / peak * ctx.uni(0.2, 1.0, nbatch) * emax
    if temps:
        if ctx.flip():
            T = ctx.uni(TLO + 1, THI - 1, nbatch).expand(ntime, nbatch).clone()
        else:
            T = ctx.uni(TLO + 1, THI - 1, 1, nbatch) * 0.5 + 0.5 * ctx.uni(
                TLO + 1, THI - 1, ntime, nbatch)
    else:
        T = torch.full((ntime, nbatch), 500.0)
    return times, strain, T


class Params(nn.Module):
    """Collects raw tensors as parameters: use Params() as the P argument of Gen"""

    def __init__(self):
        super().__init__()
        self.all = nn.ParameterList()

    def __call__(self, x):
        p = nn.Parameter(x)
        self.all.append(p)
        return p


# --------------------------------------------------------------------------
# Points in state space and numerical derivatives


def lead(ctx, nb, most=3):
    """A leading shape ending in the batch"""
    return ctx.pick((nb,), (ctx.int(1, 4), nb), (ctx.int(1, 4), nb), (2, ctx.int(1, 3), nb))[-most:]


def point(ctx, sh, n, corners=True):
    """Stress, history, time, temperature, strain rate"""
    s = ctx.uni(-300.0, 300.0, *sh)
    h = ctx.uni(-80.0, 80.0, *sh, n)
    e = ctx.logu(1e-7, 1e-1, *sh) * torch.tensor(ctx.rng.choice([-1.0, 1.0], size=sh))
    T = ctx.uni(TLO + 1.0, THI - 1.0, *sh)
    if corners:
        k = ctx.int(0, 5)
        if k == 0:
            s = s * 0.01  # below yield
        if k == 1:
            h = torch.zeros_like(h)
    return s, h, ctx.uni(0.0, 10.0, *sh), T, e


def fdiff(f, x, step):
    """
    Derivative of f along every entry of x (elementwise over the leading
    dimensions, x has no component dimension) and an error estimate
    """
    def d(h):
        return (8 * (f(x + h) - f(x - h)) - (f(x + 2 * h) - f(x - 2 * h))), h

    a, h = d(step)
    b, g = d(step / 2)
    exp = lambda h, v: h[(...,) + (None,) * (v.dim() - h.dim())] * 12.0
    a, b = a / exp(h, a), b / exp(g, b)
    return b, (a - b).abs()


def jac(f, x, step):
    """Jacobian of f with respect to the last dimension of x, and an error estimate"""
    ds, es = [], []
    for i in range(x.shape[-1]):
        def g(xi, i=i):
            z = x.clone()
            z[..., i] = xi
            return f(z)
        a, b = fdiff(g, x[..., i], step[..., i])
        ds.append(a)
        es.append(b)
    if not ds:
        r = f(x)
        return r.new_zeros(r.shape + (0,)), r.new_zeros(r.shape + (0,))
    return torch.stack(ds, -1), torch.stack(es, -1)


def judge(ctx, what, got, num, err, value, size, rtol=1e-5):
    """
    Compare an analytic derivative with a numerical one, leaving out entries where
    the numerical one is not conclusive (kinks).  value is the differentiated
    quantity and size the size of the argument, they set the scale
    """
    got, num, err = got.detach(), num.detach(), err.detach()
    ctx.shape(what, got, num.shape)
    if got.numel() == 0:
        return
    floor = 1e-9 * (value.detach().abs() / size).expand_as(num) + 1e-300
    ok = err <= 1e-6 * num.abs() + floor
    ctx.saw("derivatives judged", int(ok.sum()))
    ctx.saw("derivatives undecided", int((~ok).sum()))
    bad = ok & ~((got - num).abs() <= rtol * num.abs() + 100 * floor)
    if bool(bad.any()):
        i = tuple(int(v) for v in bad.nonzero()[0])
        ctx.fail(f"{what}: {int(bad.sum())} of {int(ok.sum())} entries differ, e.g. at {i}: "
                 f"analytic {float(got[i])!r}, numerical {float(num[i])!r}")
