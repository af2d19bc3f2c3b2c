"""P20: temperature dependent parameters have the documented values"""
import copy

import torch

from mon import gens
from mon.common import case
from pyoptmat import temperature

RULE = (
    "random temperature parameters with scalar or per test coefficients and scalings at random "
    "temperatures; a case counts if its (type, coefficient shape, temperature shape, scalings) is new"
)

KINDS = ("const", "shear", "shearexp", "mts", "kmn", "kmeta", "poly", "piece", "arr", "iarr")


def scl(ctx):
    """A random numerical scaling (function on tensors)"""
    a, b = ctx.uni(0.5, 1.5), ctx.uni(0.0, 0.2)
    return ctx.pick(lambda x: x, lambda x: a * x, lambda x: a * x * (1 + b * torch.tanh(x)))


def draw(ctx, kind, sh, req=True):
    """(object, reference(T), raw tensors)"""
    raw = []

    def p(lo, hi, *s):
        v = torch.as_tensor(ctx.uni(lo, hi, *s), dtype=torch.float64).requires_grad_(req)
        raw.append(v)
        return v

    t = temperature
    outer = scl(ctx)
    c0, c1 = p(-30.0, -5.0), p(6e4, 9e4)
    if ctx.flip():
        mu, rmu = t.PolynomialScaling(torch.stack([c0, c1])), lambda T: c0 * T + c1
    else:
        mu, rmu = t.ConstantParameter(c1), lambda T: c1
    b, k = torch.tensor(2.5e-7), torch.tensor(1.38e-20)
    s1, s2, s3, s4 = scl(ctx), scl(ctx), scl(ctx), scl(ctx)
    if kind == "const":
        v = p(-10.0, 10.0, *sh)
        return t.ConstantParameter(v, p_scale=s1, scaling=outer), lambda T: outer(s1(v)), raw, sh
    if kind == "shear":
        a = p(1e-3, 1e-2, *sh)
        return (t.ShearModulusScaling(a, mu, A_scale=s1, scaling=outer),
                lambda T: outer(s1(a) * rmu(T)), raw, sh)
    if kind == "shearexp":
        a = p(-6.0, -3.0, *sh)
        return (t.ShearModulusScalingExp(a, mu, A_scale=s1, scaling=outer),
                lambda T: outer(torch.exp(s1(a)) * rmu(T)), raw, sh)
    if kind == "mts":
        tau, g0, q, pp = p(50.0, 500.0, *sh), p(3.0, 6.0, *sh), p(0.8, 2.0, *sh), p(0.8, 2.0, *sh)
        return (
            t.MTSScaling(tau, g0, q, pp, k, b, mu, tau0_scale=s1, g0_scale=s2, q_scale=s3,
                         p_scale=s4, scaling=outer),
            lambda T: outer(s1(tau) * (1 - (k * T / (rmu(T) * b ** 3 * s2(g0))) ** (1 / s3(q)))
                            ** (1 / s4(pp))), raw, sh)
    if kind == "kmn":
        a = p(-15.0, -1.0, *sh)
        cut = ctx.pick(20.0, 5.0, 100.0)
        kw = {} if cut == 20.0 and ctx.flip() else {"cutoff": cut}
        return (t.KMRateSensitivityScaling(a, mu, b, k, A_scale=s1, scaling=outer, **kw),
                lambda T: outer(torch.clamp(-rmu(T) * b ** 3 / (k * T * s1(a)), 1.0, cut)), raw, sh)
    if kind == "kmeta":
        a, bb = p(-15.0, -1.0, *sh), p(-6.0, -3.0, *sh)
        e0 = torch.tensor(ctx.logu(1e6, 1e10))
        return (
            t.KMViscosityScaling(a, bb, mu, e0, b, k, A_scale=s1, B_scale=s2, scaling=outer),
            lambda T: outer(torch.exp(s2(bb)) * rmu(T) * e0 ** (
                -1.0 / torch.clamp(-rmu(T) * b ** 3 / (k * T * s1(a)), 1.0, 1000.0))), raw, sh)
    if kind == "poly":
        n = ctx.int(1, 5)
        c = torch.stack([p(-2.0, 2.0, *sh) * 500.0 ** -float(n - 1 - i) for i in range(n)])

        def poly(T):
            cs = s1(c)
            return outer(sum(cs[i] * T ** (n - 1 - i) for i in range(n)) + 0.0 * T)

        return t.PolynomialScaling(c, coef_scale_fn=s1, scaling=outer), poly, raw, sh
    if kind == "piece":
        n = ctx.int(2, 6)
        ctrl = torch.cat([torch.tensor([gens.TLO]),
                          gens.TLO + (gens.THI - gens.TLO) * torch.sort(ctx.uni(0.02, 0.98, n - 2))[0],
                          torch.tensor([gens.THI])])
        v = p(-10.0, 10.0, *sh, n)

        def piece(T):
            vs = s1(v)
            i = (torch.searchsorted(ctrl, T.detach().contiguous()) - 1).clamp(0, n - 2)
            f = (T - ctrl[i]) / (ctrl[i + 1] - ctrl[i])
            if sh:
                vv = vs.expand(T.shape + (n,))
                lo, hi = vv.gather(-1, i[..., None])[..., 0], vv.gather(-1, i[..., None] + 1)[..., 0]
            else:
                lo, hi = vs[i], vs[i + 1]
            return outer(lo + f * (hi - lo))

        o = t.PiecewiseScaling(ctrl, v, values_scale_fn=s1, scaling=outer)
        o.knots = ctrl
        return o, piece, raw, sh
    a, q = p(1.0, 100.0, *sh), p(100.0, 4000.0, *sh)
    if kind == "arr":
        return (t.ArrheniusScaling(a, q, A_scale=s1, Q_scale=s2, scaling=outer),
                lambda T: outer(s1(a) * torch.exp(-s2(q) / T)), raw, sh)
    return (t.InverseArrheniusScaling(a, q, A_scale=s1, Q_scale=s2, scaling=outer),
            lambda T: outer(s1(a) * (1 - torch.exp(-s2(q) / T))), raw, sh)


@case("P20", 4000, 80000)
def values(ctx):
    """Value and its derivatives"""
    kind = ctx.cycle(*KINDS)
    nb = ctx.int(1, 4)
    psh = ctx.pick((), (nb,))
    obj, ref, raw, sh = draw(ctx, kind, psh)
    tsh = gens.lead(ctx, nb)
    T = ctx.uni(gens.TLO, gens.THI, *tsh)
    if kind == "piece" and ctx.flip():
        k = obj.knots
        m = torch.tensor(ctx.rng.random(tsh) < 0.5)
        T = torch.where(m, k[torch.tensor(ctx.rng.integers(0, len(k), size=tsh))], T)
        ctx.saw("control points hit", int(m.sum()))
    smooth = kind != "piece"
    T.requires_grad_(smooth)
    ctx.describe(kind=kind, parameter_shape=list(psh), T_shape=list(tsh))
    ctx.sig(kind, psh, tsh, len(raw))
    v, w = obj(T), ref(T)
    ctx.close("value", v.expand(tsh), w.expand(tsh), rtol=1e-10, atol=1e-12)
    ctx.shape("shape", torch.empty(obj.shape), sh)
    W = ctx.normal(*tsh)
    wrt = raw + ([T] if smooth else [])
    g = torch.autograd.grad((v.expand(tsh) * W).sum(), wrt, allow_unused=True, retain_graph=True)
    r = torch.autograd.grad((w.expand(tsh) * W).sum(), wrt, allow_unused=True, retain_graph=True)
    for a, b in zip(g, r):
        a = torch.zeros(1) if a is None else a
        b = torch.zeros_like(a) if b is None else b
        a = torch.zeros_like(b) if a.shape != b.shape else a
        ctx.saw("derivatives judged", b.numel())
        ctx.close("derivative", a, b, rtol=1e-8, atol=1e-10 * (1 + float(b.abs().max())))


@case("P20", 800, 16000)
def slices(ctx):
    """A parameter of a set of tests holds the parameters of the tests; values do not depend on the company"""
    kind = ctx.cycle(*KINDS)
    nb = ctx.int(2, 4)
    obj, _, _, _ = draw(ctx, kind, ctx.pick((), (nb,)), req=False)
    tsh = (ctx.int(2, 4), nb)
    T = ctx.uni(gens.TLO, gens.THI, *tsh)
    v = obj(T).expand(tsh)
    ctx.describe(kind=kind, T_shape=list(tsh))
    ctx.sig(kind, tsh, tuple(obj.shape))
    for i in range(tsh[0]):
        ctx.close("row by row", obj(T[i]).expand(nb), v[i], rtol=1e-12)
    p = torch.tensor(ctx.rng.permutation(tsh[0]))
    ctx.close("permuted rows", obj(T[p]).expand(tsh), v[p], rtol=1e-12)
    ctx.close("copied parameter", copy.deepcopy(obj)(T).expand(tsh), v, rtol=0.0, atol=0.0)
