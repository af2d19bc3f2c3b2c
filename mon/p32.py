"""P32: evaluation is a pure function of its arguments"""
import decimal
import locale
import os
import random
import signal
import sys
import warnings

import numpy as np
import torch

from mon import gens, inference, odes, p20
from mon.common import case, Skip
from pyoptmat import models, ode

RULE = (
    "random objects evaluated repeatedly with other evaluations in between, all tensors within reach of "
    "the call watched; a case counts if its (object, shapes, options) signature is new"
)


class Watch:
    """Values of tensors and the global state"""

    def __init__(self, ctx, named):
        self.ctx = ctx
        self.t = [(n, x, x.detach().clone(), x.requires_grad, x._version if not x.is_inference() else 0)
                  for n, x in named]
        self.state = self.globals()

    @staticmethod
    def globals():
        """Process wide settings a simulation has no business with"""
        return (torch.get_rng_state().numpy().tobytes(), np.random.get_state()[1].tobytes(),
                torch.get_default_dtype(), torch.is_grad_enabled(), torch.is_anomaly_enabled(),
                random.getstate(), str(torch.get_default_device()), torch.get_num_threads(),
                torch.are_deterministic_algorithms_enabled(), torch.is_inference_mode_enabled(),
                torch.get_float32_matmul_precision(), str(np.geterr()), tuple(map(str, warnings.filters)),
                id(warnings.showwarning), sys.getrecursionlimit(), id(sys.excepthook), os.getcwd(),
                tuple(sorted(os.environ)), str(locale.getlocale()), signal.getsignal(signal.SIGINT),
                str(decimal.getcontext()), torch.autograd.is_multithreading_enabled())

    def judge(self, grads=False):
        """Nothing changed"""
        for n, x, v, r, _ in self.t:
            self.ctx.same(f"{n} after the call", x.detach(), v)
            self.ctx.expect(x.requires_grad == r, f"{n} tracks derivatives as before")
            if not grads and x.is_leaf:
                self.ctx.expect(x.grad is None, f"{n} has no gradient after an evaluation")
        self.ctx.expect(self.globals() == self.state, "random number streams and settings as before")


def moved(ctx, x):
    """The same values, perhaps as a view or with derivatives"""
    k = ctx.int(0, 3)
    if k == 0:
        return x.clone().requires_grad_(True)
    if k == 1 and x.dim() > 1:
        return x.transpose(0, 1).contiguous().transpose(0, 1)
    return x.clone()


def repeat(ctx, what, call, disturb=None):
    """Same arguments, same result"""
    a = call()
    keep = [v.detach().clone() for v in a]
    for _ in range(2):
        if disturb:
            disturb()
        b = call()
        for i, (x, y) in enumerate(zip(b, keep)):
            ctx.same(f"{what}, value {i}, evaluated again", x.detach(), y)
        for i, (x, y) in enumerate(zip(a, keep)):
            ctx.same(f"{what}, value {i}, after later evaluations", x.detach(), y)
    ctx.saw("repeated evaluations", 3)


@case("P32", 720, 18000)
def components(ctx):
    """Material models and their parts"""
    nb = ctx.int(1, 4)
    sh = gens.lead(ctx, nb)
    P = gens.Params()
    shared = ctx.flip(0.4)
    g = gens.Gen(ctx, batch=None if shared else nb, P=P if ctx.flip() else lambda x: x)
    kind = ctx.cycle("model", "flow", "iso", "kin", "damage", "both")
    grad = ctx.flip()
    other = gens.lead(ctx, nb)

    def args(shape, n):
        s, h, t, T, e = gens.point(ctx, shape, n)
        return s, h, t, T, e

    if kind == "iso":
        obj, ref = g.isotropic()
        fns = [lambda s, h, t, T, e: (obj.value(h), obj.dvalue(h)),
               lambda s, h, t, T, e: (obj.history_rate(s, h, t, e, T, e),
                                      obj.dhistory_rate_dhistory(s, h, t, e, T, e),
                                      obj.dhistory_rate_dstress(s, h, t, e, T, e),
                                      obj.dhistory_rate_derate(s, h, t, e, T, e))]
    elif kind == "kin":
        obj, ref = g.kinematic()
        fns = [lambda s, h, t, T, e: (obj.value(h), obj.dvalue(h)),
               lambda s, h, t, T, e: (obj.history_rate(s, h, t, e, T, e),
                                      obj.dhistory_rate_dhistory(s, h, t, e, T, e),
                                      obj.dhistory_rate_dstress(s, h, t, e, T, e),
                                      obj.dhistory_rate_derate(s, h, t, e, T, e))]
    elif kind == "flow":
        obj, ref = g.flow()
        fns = [lambda s, h, t, T, e: obj.flow_rate(s, h, t, T, e),
               lambda s, h, t, T, e: (obj.dflow_dhist(s, h, t, T, e), obj.dflow_derate(s, h, t, T, e)),
               lambda s, h, t, T, e: obj.history_rate(s, h, t, T, e),
               lambda s, h, t, T, e: (obj.dhist_dstress(s, h, t, T, e),
                                      obj.dhist_derate(s, h, t, T, e))]
    elif kind == "damage":
        obj, ref = g.damage()
        ref.n = 0
        fns = [lambda s, h, t, T, e: obj.damage_rate(s, (s / 1e3).abs(), t, T, e),
               lambda s, h, t, T, e: (obj.d_damage_rate_d_s(s, (s / 1e3).abs(), t, T, e),
                                      obj.d_damage_rate_d_e(s, (s / 1e3).abs(), t, T, e))]
    else:
        obj, ref = g.model()
        ref.n -= 1

        def full(s, h, t, T, e):
            y = torch.cat([s[..., None], h], -1)
            if ref.damaged:
                y = torch.cat([y[..., :-1], (y[..., -1:] / 1e3).abs()], -1)
            return obj(t, y, e, T)

        fns = [full]
    if kind == "both":
        # the mixed control wrapper used by the integrator holds the loads
        return bases(ctx, obj, ref, nb, shared)
    ctx.describe(kind=kind, what=getattr(ref, "kind", ""), shape=sh)
    ctx.sig(kind, getattr(ref, "kind", ""), sh)
    a = [moved(ctx, x) for x in args(sh, ref.n)]
    b = args(other, ref.n)
    w = Watch(ctx, list(zip(("stress", "history", "time", "temperature", "strain rate"), a))
              + [(f"parameter {i}", p) for i, p in enumerate(P.all)])
    with torch.set_grad_enabled(grad):
        w.state = w.globals()
        for i, f in enumerate(fns):
            repeat(ctx, f"{kind} function {i}", lambda f=f: f(*a), lambda f=f: f(*b))
        w.judge()
    return None


def bases(ctx, obj, ref, nb, shared):
    """The models of tests under prescribed loads"""
    nt = ctx.int(2, 6)
    t, e, T = gens.history(ctx, nt, nb, emax=0.01)
    names = ("times", "loads", "temperatures")
    tt, ee, TT = [moved(ctx, x) for x in (t, e, T)]
    c = torch.tensor(ctx.rng.integers(0, 2, size=nb))
    w = Watch(ctx, list(zip(names, (tt, ee, TT))) + [("control", c)])
    intg = models.ModelIntegrator(obj, block_size=ctx.int(1, 4), miter=ctx.pick(1, 12, 12))
    ctx.describe(kind="simulation", what=ref.kind, nb=nb, nt=nt)
    ctx.sig("simulation", ref.kind, nb, nt)
    runs = [lambda: (intg.solve_strain(tt, ee, TT),),
            lambda: (intg.solve_stress(tt, ee * 1e3, TT),),
            lambda: (intg.solve_both(tt, TT, ee * (1.0 + 999.0 * c), c),)]
    k = ctx.int(0, 2)
    j = ctx.int(0, 2)
    half = max(2, nt // 2)

    def disturb():
        runs[j]()
        intg.solve_strain(t[:half, :1], e[:half, :1], T[:half, :1])

    if bool((torch.isfinite(runs[k]()[0])).all()):
        ctx.saw("simulations")
    repeat(ctx, "simulation", runs[k], disturb if shared else None)
    w.judge()


@case("P32", 300, 8000)
def updated(ctx):
    """Objects keep no memory: after parameters or arguments change they behave like new ones"""
    nb = ctx.int(1, 4)
    sh = gens.lead(ctx, nb)
    kind = ctx.cycle("temperature", "model", "flow", "temperature", "iso", "kin", "damage")

    def make():
        """Object, name, number of history variables, parameters"""
        if kind == "temperature":
            what = ctx.pick(*p20.KINDS)
            obj, _, raw, _ = p20.draw(ctx, what, ctx.pick((), (nb,)))
            return obj, what, 0, raw
        P = gens.Params()
        g = gens.Gen(ctx, batch=nb, P=P)
        obj, ref = {"model": g.model, "flow": g.flow, "iso": g.isotropic, "kin": g.kinematic,
                    "damage": g.damage}[kind]()
        n = {"model": lambda: ref.n - 1, "damage": lambda: 0}.get(kind, lambda: ref.n)()
        return obj, ref.kind, n, list(P.all)

    state = ctx.rng.bit_generator.state
    old, what, n, raw_old = make()
    ctx.rng.bit_generator.state = state
    new, _, _, raw_new = make()

    def call(o, s, h, t, T, e):
        if kind == "temperature":
            return (o(T),)
        if kind == "model":
            y = torch.cat([s[..., None], h], -1)
            if isinstance(o, models.DamagedInelasticModel):
                y = torch.cat([y[..., :-1], (y[..., -1:] / 1e3).abs()], -1)
            return o(t, y, e, T)
        if kind == "flow":
            return (*o.flow_rate(s, h, t, T, e), *o.history_rate(s, h, t, T, e),
                    o.dflow_dhist(s, h, t, T, e), o.dhist_dstress(s, h, t, T, e))
        if kind == "damage":
            d = (s / 1e3).abs()
            return *o.damage_rate(s, d, t, T, e), o.d_damage_rate_d_s(s, d, t, T, e)
        return (o.value(h), o.dvalue(h), o.history_rate(s, h, t, e, T, e),
                o.dhistory_rate_dhistory(s, h, t, e, T, e), o.dhistory_rate_derate(s, h, t, e, T, e))

    args = list(gens.point(ctx, sh, n))
    which = ctx.pick("parameters", "arguments", "both")
    ctx.describe(kind=kind, what=what, shape=list(sh), parameters=len(raw_old), changed=which)
    ctx.sig(kind, what, sh, which)
    with torch.set_grad_enabled(ctx.flip(0.7)):
        call(old, *args)
        with torch.no_grad():
            if which != "arguments":
                for a, b in zip(raw_old, raw_new):
                    if bool((a == 1.0).any()) or ctx.flip(0.3):
                        continue  # switched off, or not trained
                    k = ctx.uni(0.99, 1.01)
                    a.mul_(k)
                    b.mul_(k)
            if which != "parameters":
                for x in args:
                    x.mul_(0.999)
        a, b = call(old, *args), call(new, *[x.clone() for x in args])
    for i, (x, y) in enumerate(zip(a, b)):
        ctx.same(f"value {i} after a change of the {which}", x.detach(), y.detach())
    ctx.saw("changes after an evaluation")


@case("P32", 400, 14000)
def integrals(ctx):
    """Integrations of user systems, also followed by backward passes"""
    nb, n, nt = ctx.int(1, 3), ctx.int(1, 3), ctx.pick(1, 2, 5, 9)
    s = odes.System(ctx, nb, n, extra=("lin",) if ctx.flip(0.3) else ())
    t = odes.grid(ctx, nt, nb, tmax=1.0, repeats=ctx.flip(0.2))
    y0 = moved(ctx, ctx.uni(-1, 1, nb, n))
    t = moved(ctx, t).detach() if ctx.flip(0.7) else t.expand(nt, nb)
    o = odes.options(ctx, nt)
    if ctx.flip(0.3):
        o["miter"] = ctx.int(1, 2)  # most of these are reported as not solved
    keep = dict(o)
    fn = ctx.pick(ode.odeint_adjoint, ode.odeint)
    named = [("initial state", y0), ("times", t)] + list(s.named_parameters()) + [
        (f"extra parameter {i}", p) for i, p in enumerate(s.extra_tensors)]
    ctx.describe(terms=s.terms, nb=nb, n=n, nt=nt, options=o, fn=fn.__name__)
    ctx.sig(s.terms, nb, n, nt, fn.__name__, tuple(sorted(o.items())))
    w = Watch(ctx, named)
    extras = list(s.extra_tensors) or None
    call = lambda: (fn(s, y0, t, extra_params=extras, **o),)
    z, u = ctx.uni(-1, 1, nb, n), odes.grid(ctx, ctx.int(2, 4), nb, tmax=0.5)
    oo = odes.options(ctx, 3)
    w = Watch(ctx, named)
    repeat(ctx, "integration", call, lambda: ode.odeint(s, z, u, **oo))
    w.judge()
    ctx.expect(o == keep and (extras is None or len(extras) == len(s.extra_tensors)), "options as before")
    y = call()[0]
    if not y.requires_grad or not torch.isfinite(y).all():
        return
    yv = y.detach().clone()
    w = Watch(ctx, named)
    leaves = [x for _, x in named if x.requires_grad]
    L = (y ** 2).sum()
    g = torch.autograd.grad(L, leaves, allow_unused=True, retain_graph=True)
    kept = [None if v is None else v.clone() for v in g]
    g2 = torch.autograd.grad(L, leaves, allow_unused=True)
    w.judge()
    ctx.same("solution after the backward passes", y.detach(), yv)
    for a, b, c in zip(g, kept, g2):
        ctx.expect((a is None) == (c is None), "the same derivatives exist")
        if a is not None:
            ctx.same("first gradient after the second backward pass", a, b)
            ctx.same("second gradient", c, b)
    ctx.saw("backward passes", 2)


@case("P32", 80, 4000)
def condensed(ctx):
    """Predictions of deterministic calibration models"""
    from pyoptmat import optimize

    mk = inference.Maker(ctx)
    nt, ne = ctx.int(4, 7), ctx.int(1, 4)
    data, cyc, ty, co = inference.dataset(ctx, nt, ne)
    x = [torch.as_tensor(ctx.uni(0.4, 0.6, *mk.shape(n)), dtype=torch.float64) for n in mk.names]
    m = optimize.DeterministicModel(mk, mk.names, x)
    w = Watch(ctx, [("data", data), ("cycles", cyc), ("types", ty), ("control", co)]
              + [(f"initial value {i}", v) for i, v in enumerate(x)] + list(m.named_parameters()))
    ctx.describe(parameters=mk.names, ntime=nt, types=ty)
    ctx.sig(tuple(mk.names), nt, tuple(ty.tolist()))
    names = [n for n, _ in m.named_parameters()]
    ctx.expect(names == list(mk.names), "trainable parameters", got=names)
    try:
        repeat(ctx, "prediction", lambda: (m(data, cyc, ty, co),),
               lambda: m(data[:, :, :1], cyc[:, :1], ty[:1], co[:1]))
    except RuntimeError as e:
        if "did not succeed" in str(e):
            raise Skip from e
        raise
    w.judge()
