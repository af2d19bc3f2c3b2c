"""P39: memory for derivatives does not grow with the history, nothing accumulates"""
import gc
import weakref

import torch
import pyro
from pyro.infer import SVI, Trace_ELBO

from mon import gens, inference, odes
from mon.common import case, Skip
from mon.p02 import mild
from pyoptmat import experiments, models, ode, optimize, solvers, utility

RULE = (
    "random problems with every tensor recorded for backpropagation tracked until it is released, and "
    "operations repeated with the living tensors counted; a case counts if its (operation, problem) is new"
)


class Kept:
    """What the tape stores for a backward pass"""

    def __init__(self, tape, x):
        self.tape, self.x = tape, x.detach()
        self.size = x.numel()
        tape.now += self.size
        tape.top = max(tape.top, tape.now)
        tape.count += 1

    def __del__(self):
        self.tape.now -= self.size


class Tape:
    """Monitors everything recorded for backpropagation: numbers stored now, at most, and tensors recorded"""

    def __init__(self):
        self.now = self.top = self.count = 0

    def watch(self):
        """Context manager"""
        return torch.autograd.graph.saved_tensors_hooks(lambda x: Kept(self, x), lambda k: k.x)


def living():
    """Tensors alive, and their numbers"""
    gc.collect()
    t = [o for o in gc.get_objects() if issubclass(type(o), torch.Tensor)]
    return len(t), sum(o.numel() for o in t)


def tapes(ctx, run, what):
    """Adjoint integration of shorter and longer histories in blocks of the same size"""
    tops, recorded = [], []
    for k in (2, 9):
        tape = Tape()
        with tape.watch():
            y = run(k)
            ctx.expect(y.requires_grad, f"{what}: solution carries derivatives")
            recorded.append(tape.count)
            tape.top = before = tape.now
            y.sum().backward()
        tops.append(tape.top - before)
        ctx.saw("tensors recorded by backward passes", tape.count)
        ctx.saw("blocks differentiated", k)
        del y
        gc.collect()
        ctx.expect(tape.now == 0, f"{what}: {tape.now} numbers recorded for derivatives were not released")
    ctx.expect(recorded[1] <= recorded[0] + 2, f"{what}: the adjoint solution of 9 blocks recorded {recorded[1]} "
               f"tensors for backpropagation, the one of 2 blocks {recorded[0]}")
    ctx.expect(tops[1] <= 2.5 * tops[0] + 100,
               f"{what}: derivatives of 9 blocks keep {tops[1]} numbers at once, those of 2 blocks {tops[0]}")


@case("P39", 200, 8000)
def adjoint(ctx):
    """User systems"""
    nb, n, bs = ctx.int(1, 4), ctx.int(1, 4), ctx.int(1, 6)
    s = mild(ctx, nb, n)
    o = odes.options(ctx, 13)
    o["block_size"] = bs
    ctx.describe(terms=s.terms, nb=nb, n=n, options=o)
    ctx.sig(s.terms, nb, n, tuple(sorted(o.items())))

    def run(k):
        nt = 1 + bs * k
        y0 = ctx.uni(-1, 1, nb, n).requires_grad_(True)
        y = ode.odeint_adjoint(s, y0, odes.grid(ctx, nt, nb, tmax=1.0), extra_params=s.extra_tensors, **o)
        return y

    tapes(ctx, run, "integration")


@case("P39", 32, 2500)
def materials(ctx):
    """Simulated tests"""
    nb, bs = ctx.int(1, 3), ctx.int(1, 4)
    P = gens.Params()
    obj, ref = gens.Gen(ctx, batch=nb, P=P).model()
    mode = ctx.cycle("strain", "stress", "both")
    ctx.describe(model=ref.kind, nb=nb, mode=mode, block_size=bs)
    ctx.sig(ref.kind, nb, mode, bs)
    i = models.ModelIntegrator(obj, block_size=bs, miter=6)
    c = torch.tensor(ctx.rng.integers(0, 2, size=nb))

    def run(k):
        nt = 1 + bs * k
        t, e, T = gens.history(ctx, nt, nb, emax=0.005)
        if mode == "strain":
            y = i.solve_strain(t, e, T)
        elif mode == "stress":
            y = i.solve_stress(t, e * 1e4, T)
        else:
            y = i.solve_both(t, T, e * (1.0 + 9999.0 * c), c)
        return y

    if not P.all:
        raise Skip
    tapes(ctx, run, f"{mode} control")


def operation(ctx):
    """Something done again and again: name, function, returning tensors"""
    kind = ctx.cycle("rates", "strain", "stress", "both", "integral", "deterministic", "statistical",
                     "solver", "helpers", "parts")
    nb, nt = ctx.int(1, 3), ctx.int(3, 7)
    if kind in ("rates", "strain", "stress", "both", "parts"):
        P = gens.Params()
        g = gens.Gen(ctx, batch=nb, P=P)
        if kind == "parts":
            obj, ref = g.flow()
            a = gens.point(ctx, (nt, nb), ref.n)
            return kind, lambda: [*obj.flow_rate(*a), *obj.history_rate(*a), obj.dflow_dhist(*a),
                                  obj.dhist_dstress(*a)], P.all
        obj, ref = g.model()
        t, e, T = gens.history(ctx, nt, nb, emax=0.005)
        if kind == "rates":
            y = ctx.uni(0.0, 0.5, nt, nb, ref.n)
            return kind, lambda: obj(t, y, e, T)[:3], P.all
        i = models.ModelIntegrator(obj, use_adjoint=ctx.flip(), block_size=ctx.int(1, 3), miter=8)
        c = torch.tensor(ctx.rng.integers(0, 2, size=nb))
        return kind, {"strain": lambda: [i.solve_strain(t, e, T)],
                      "stress": lambda: [i.solve_stress(t, e * 1e4, T)],
                      "both": lambda: [i.solve_both(t, T, e * (1.0 + 9999.0 * c), c)]}[kind], P.all
    if kind == "integral":
        s = mild(ctx, nb, 2)
        o, fn = odes.options(ctx, nt), ctx.pick(ode.odeint, ode.odeint_adjoint)
        t, y0 = odes.grid(ctx, nt, nb, tmax=1.0), ctx.uni(-1, 1, nb, 2).requires_grad_(True)
        return kind, lambda: [fn(s, y0, t, **o)], [y0, *s.parameters()]
    if kind == "deterministic":
        mk = inference.Maker(ctx)
        data = inference.dataset(ctx, nt + 1, nb)
        x = [torch.as_tensor(ctx.uni(0.4, 0.6, *mk.shape(n)), dtype=torch.float64) for n in mk.names]
        m = optimize.DeterministicModel(mk, mk.names, x)
        return kind, lambda: [m(*data)], list(m.parameters())
    if kind == "statistical":
        from mon.p28 import build

        mk, data, m, _ = build(ctx)
        guide = m.make_guide()
        svi = SVI(m, guide, pyro.optim.SGD({"lr": 1e-9}), Trace_ELBO())
        obs = torch.zeros(data[0].shape[1:])

        def step():
            mk.built.clear()
            svi.step(*data, obs)
            return []

        return kind, step, []
    if kind == "solver":
        A, b = ctx.normal(nb, 3, 3) + 6 * torch.eye(3), ctx.normal(nb, 3).requires_grad_(True)

        def fn(x):
            return torch.einsum("bij,bj->bi", A, x) + 0.1 * x ** 3 - b, A + torch.diag_embed(0.3 * x ** 2)

        solve = ctx.pick(solvers.newton_raphson, solvers.newton_raphson_bt)
        x0 = ctx.normal(nb, 3)
        return kind, lambda: list(solve(fn, x0)), [b]
    t, e, T = gens.history(ctx, nt, nb, emax=0.01)
    v = (e * 1e3).requires_grad_(True)
    ty = torch.tensor(ctx.rng.integers(0, 7, size=nb))
    cyc = inference.dataset(ctx, nt, nb, types=ty)[1]
    return kind, lambda: [utility.ArbitraryBatchTimeSeriesInterpolator(t, v)(t),
                          experiments.convert_results(v, cyc, ty)], [v]


@case("P39", 160, 5000)
def repeated(ctx):
    """Repetitions leave nothing behind"""
    gc.collect()
    gc.freeze()  # what exists already
    what, call, ps = operation(ctx)
    back = ctx.flip(0.7)
    ctx.describe(what=what, backward=back, parameters=len(ps))
    ctx.sigs.clear()
    ctx.sig(what, back, ctx.index, len(ps))
    tape, refs, counts = Tape(), [], []

    def once():
        out = call()
        refs[:] = [weakref.ref(x) for x in out if not any(x is p for p in ps)]
        with torch.no_grad():
            fine = all(bool(torch.isfinite(x).all()) for x in out)
        grads = [x for x in out if x.requires_grad]
        if back and fine and grads:
            for p in ps:
                p.grad = None
            sum(x.sum() for x in grads).backward()

    try:
        with tape.watch():
            for i in range(5):
                once()
                if i in (1, 4):
                    counts.append(living())
                    ctx.expect(tape.now == 0, f"{what}: {tape.now} numbers recorded for derivatives were not "
                                              f"released after repetition {i + 1}")
    except RuntimeError as e:
        if "did not succeed" in str(e):
            raise Skip from e
        raise
    finally:
        gc.unfreeze()
    ctx.saw("repetitions", 5)
    ctx.saw("tensors recorded", tape.count)
    ctx.expect(all(r() is None for r in refs), f"{what}: results are still alive after the caller dropped them")
    ctx.expect(counts[1][0] <= counts[0][0] and counts[1][1] <= counts[0][1],
               f"{what}: after 5 repetitions {counts[1][0]} tensors with {counts[1][1]} numbers are alive, after 2 "
               f"repetitions {counts[0][0]} with {counts[0][1]}")
