"""P21: scaling functions map bounds, invert and transform distributions"""
import re

import torch

from mon.common import case
from pyoptmat import optimize, scaling

RULE = (
    "random scaling functions with scalar or array bounds at random points in and out of bounds; a "
    "case counts if its (function, shapes) signature is new"
)


def shapes(ctx):
    """bounds' shape and argument shape"""
    sh = ctx.pick((), (3,), (2, 3))
    return ctx.pick((), sh[-1:], sh), sh


def U(ctx, lo, hi, sh):
    """Uniform tensor"""
    return torch.as_tensor(ctx.uni(lo, hi, *sh), dtype=torch.float64)


@case("P21", 4000, 80000)
def functions(ctx):
    """scale, unscale, bounds, clamping"""
    kind = ctx.cycle("simple", "bounded", "log")
    bsh, sh = shapes(ctx)
    ctx.describe(kind=kind, bounds=list(bsh), argument=list(sh))
    ctx.sig(kind, bsh, sh, ctx.index % 60)
    z = U(ctx, -0.7, 1.7, sh)
    x = U(ctx, 0.0, 1.0, sh)
    if kind == "simple":
        s = U(ctx, 0.1, 100.0, bsh) * ctx.pick(-1.0, 1.0)
        f = scaling.SimpleScalingFunction(s)
        ctx.close("scaled", f.scale(z), s * z, rtol=1e-14)
        ctx.close("called", f(z), s * z, rtol=1e-14)
        ctx.close("back and forth", f.unscale(f.scale(z)), z, rtol=1e-12, atol=1e-14)
        ctx.close("forth and back", f.scale(f.unscale(z)), z, rtol=1e-12, atol=1e-14)
        return
    if kind == "bounded":
        lo = U(ctx, -100.0, 50.0, bsh)
        hi = lo + U(ctx, 0.1, 200.0, bsh)
        cls, want = scaling.BoundedScalingFunction, lambda q: lo * (1 - q) + hi * q
    else:
        lo = torch.exp(U(ctx, -10.0, 3.0, bsh))
        hi = lo * torch.exp(U(ctx, 0.1, 8.0, bsh))
        cls, want = scaling.LogBoundedScalingFunction, lambda q: torch.exp(
            torch.log(lo) * (1 - q) + torch.log(hi) * q)
    ref = float((hi - lo).max() + lo.abs().max())
    clamp = ctx.pick(None, True, False)
    f = cls(lo, hi) if clamp is None else cls(lo, hi, clamp=clamp)
    tol = dict(rtol=1e-10, atol=1e-13 * ref)
    one = torch.ones(sh)
    ctx.close("lower bound", f.scale(0 * one), lo.expand(sh), **tol)
    ctx.close("upper bound", f.scale(one), hi.expand(sh), **tol)
    ctx.close("inside", f.scale(x), want(x), **tol)
    ctx.close("called", f(x), want(x), **tol)
    ctx.close("back and forth", f.unscale(f.scale(x)), x, rtol=1e-8, atol=1e-8)
    y = want(x)
    ctx.close("forth and back", f.scale(f.unscale(y)), y, rtol=1e-8, atol=1e-10 * ref)
    if clamp is False:
        ctx.close("outside", f.scale(z), want(z), **tol)
        ctx.close("back and forth outside", f.unscale(f.scale(z)), z, rtol=1e-7, atol=1e-7)
    else:
        ctx.close("clamped", f.scale(z), want(z.clamp(0.0, 1.0)), **tol)
        v = f.scale(z)
        ctx.expect(bool(((v >= lo - 1e-12 * ref) & (v <= hi + 1e-12 * ref)).all()), "within bounds")
    w = x + U(ctx, 0.0, 0.3, sh)
    ctx.expect(bool((f.scale(w) >= f.scale(x)).all()), "monotone")
    q = x.clone().requires_grad_(True)
    g, = torch.autograd.grad(f.scale(q).sum(), q)
    q2 = x.clone().requires_grad_(True)
    r, = torch.autograd.grad(want(q2).sum(), q2)
    ctx.close("derivative", g, r, rtol=1e-9, atol=1e-12 * ref)


def numbers(txt):
    """All numbers of a printed tensor"""
    return [float(v) for v in re.findall(r"[-+]?\d+\.?\d*(?:e[-+]?\d+)?", txt)]


@case("P21", 800, 16000)
def statistics(ctx):
    """Scaled normal distributions"""
    kind = ctx.cycle("simple", "bounded", "log")
    bsh, sh = shapes(ctx)
    loc, sc = U(ctx, 0.05, 0.95, sh), U(ctx, 0.01, 0.3, sh)
    ctx.describe(kind=kind, bounds=list(bsh), argument=list(sh))
    ctx.sig(kind, bsh, sh, ctx.index % 60)
    if kind == "simple":
        s = U(ctx, 0.1, 100.0, bsh)
        f = scaling.SimpleScalingFunction(s)
        mean, want = s * loc, [("loc", s * loc), ("scale", s * sc)]
    elif kind == "bounded":
        lo = U(ctx, -10.0, 5.0, bsh)
        hi = lo + U(ctx, 0.1, 20.0, bsh)
        f = scaling.BoundedScalingFunction(lo, hi)
        mean = lo + (hi - lo) * loc
        want = [("loc", mean), ("scale", (hi - lo) * sc)]
    else:
        lo = torch.exp(U(ctx, -3.0, 3.0, bsh))
        hi = lo * torch.exp(U(ctx, 0.1, 4.0, bsh))
        f = scaling.LogBoundedScalingFunction(lo, hi)
        m, d = torch.log(lo) + torch.log(hi / lo) * loc, torch.log(hi / lo) * sc
        mean = torch.exp(m + d ** 2 / 2)
        want = [("loc", m), ("scale", d), ("mean", mean)]
    ctx.close("scaled mean", f.scale_mean(loc, sc), mean, rtol=1e-10, atol=1e-12)
    txt = f.scale_stat(loc, sc)
    ctx.expect(("Log normal" in txt) == (kind == "log"), "named distribution", text=txt)
    got = []
    for part in re.split(r"loc:|scale:|mean values:", txt)[1:]:
        got.append(numbers(part))
    ctx.expect(len(got) == len(want), "printed quantities", text=txt)
    for g, (name, w) in zip(got, want):
        w = w.reshape(-1).tolist()
        ctx.expect(len(g) >= len(w), f"printed {name}", text=txt)
        # printed with four digits, possibly with a common factor
        fac = 1.0
        if len(g) == len(w) + 1:
            fac = g[0]
            g = g[1:]
        big = max(abs(v) for v in w)
        for a, b in zip(g, w):
            ctx.saw("printed numbers judged")
            ctx.expect(abs(a * fac - b) <= 2e-4 * max(big, 1.0) + 1e-3 * abs(b), f"printed {name}",
                       text=txt, want=b)


@case("P21", 1500, 30000)
def helpers(ctx):
    """Scaling helpers of the optimization module"""
    kind = ctx.cycle("factor", "factormin", "bounded", "boundedmin", "clamp", "scale", "log")
    sh = ctx.pick((), (3,), (2, 3))
    z = U(ctx, -0.7, 1.7, sh)
    ctx.describe(kind=kind, argument=list(sh))
    ctx.sig(kind, sh, ctx.index % 70)
    lo = U(ctx, -5.0, 5.0, ())
    hi = lo + U(ctx, 0.5, 5.0, ())
    mb = lo + (hi - lo) * ctx.uni(0.1, 0.9)
    if kind.startswith("factor"):
        m, f = U(ctx, 1.0, 100.0, ()), ctx.uni(0.05, 0.9)
        lo, hi = m * (1 - f), m * (1 + f)
        mb = lo + (hi - lo) * ctx.uni(0.1, 0.9)
        fn = optimize.bound_factor(m, f, *((mb,) if kind == "factormin" else ()))
        want = lo + (hi - lo) * z.clamp(0, 1)
    elif kind.startswith("bounded"):
        fn = optimize.bounded_scale_function((lo, hi), **({"min_bound": mb} if kind == "boundedmin" else {}))
        want = lo + (hi - lo) * z.clamp(0, 1)
    elif kind == "clamp":
        z = U(ctx, -12.0, 12.0, sh)
        fn = optimize.clamp_scale_function((float(lo), float(hi)))
        want = z.clamp(float(lo), float(hi))
    else:
        z = U(ctx, -12.0, 12.0, sh)
        s = ctx.uni(0.5, 3.0)
        if kind == "scale":
            fn, want = optimize.bound_and_scale(s, (float(lo), float(hi))), (z / s)
        else:
            lo, hi = lo.abs() + 0.1, lo.abs() + 0.1 + (hi - lo)
            fn, want = optimize.log_bound_and_scale(s, (float(lo), float(hi))), torch.exp(z / s)
        want = want.clamp(float(lo), float(hi))
    if kind.endswith("min"):
        want = torch.where(want < mb, mb, want)
    ctx.close("scaled", fn(z), want, rtol=1e-12, atol=1e-12)
