"""P37: concurrent simulations do not disturb each other"""
import sys
import threading

import torch

from mon import gens, odes
from mon.common import case, Skip
from pyoptmat import models, ode

RULE = (
    "random sets of simulations and integrations run by several threads over shared objects, with very short "
    "time slices, and again one after the other; a case counts if its recorded interleaving is new"
)


class Recorded(torch.nn.Module):
    """A system which notes the thread of each evaluation"""

    def __init__(self, sub, trace):
        super().__init__()
        self.sub = sub
        self.trace = trace

    def forward(self, *a):
        """Rate and Jacobian"""
        self.trace.append(threading.get_ident())
        return self.sub(*a)


def together(jobs, trace):
    """Run the jobs in threads at the same time: their results"""
    out = [None] * len(jobs)
    gate = threading.Barrier(len(jobs))

    def run(i):
        try:
            gate.wait(20)
            out[i] = ("done", jobs[i]())
        except Exception as e:  # pylint: disable=broad-except
            out[i] = ("failed", e)

    ts = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(len(jobs))]
    old = sys.getswitchinterval()
    sys.setswitchinterval(3e-5)
    trace.clear()
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    return out


def alone(job):
    """One job"""
    try:
        return ("done", job())
    except RuntimeError as e:
        return ("failed", e)


def judge(ctx, jobs, trace):
    """Concurrent results are those of the jobs alone"""
    ref = [alone(j) for j in jobs]
    if all(r[0] == "failed" for r in ref):
        raise Skip
    got = together(jobs, trace)
    ids = {}
    seq = [ids.setdefault(i, len(ids)) for i in list(trace)]
    switches = sum(a != b for a, b in zip(seq, seq[1:]))
    ctx.saw("rate evaluations", len(seq))
    ctx.saw("switches between threads", switches)
    if switches >= len(jobs):
        ctx.sig(hash(tuple(seq)))
        ctx.saw("interleaved runs")
    for i, (a, b) in enumerate(zip(got, ref)):
        if b[0] == "failed":
            ctx.expect(a[0] == "failed", f"job {i} fails as it does alone")
            continue
        if a[0] == "failed":
            raise a[1]
        for k, (x, y) in enumerate(zip(a[1], b[1])):
            ctx.close(f"value {k} of job {i}", x, y, rtol=1e-9, atol=1e-11)


@case("P37", 100, 2500)
def integrals(ctx):
    """User systems shared by several threads"""
    nb, n = ctx.int(1, 3), ctx.int(1, 3)
    terms = [t for t in ("lin", "tanh", "cube", "sin", "ext") if ctx.flip(0.6)] or ["cube", "sin"]
    trace = []
    systems = [Recorded(odes.System(ctx, nb, n, terms=terms, stiff=0.7), trace) for _ in range(ctx.int(1, 2))]
    jobs = []
    for _ in range(ctx.int(2, 4)):
        nt = ctx.pick(5, 9, 17)
        s, t, o = ctx.pick(*systems), odes.grid(ctx, nt, nb, tmax=1.0), odes.options(ctx, nt)
        y0, w = ctx.uni(-1, 1, nb, n), ctx.normal(nt, nb, n)
        fn = ctx.pick(ode.odeint, ode.odeint_adjoint)

        def job(s=s, t=t, o=o, y0=y0, w=w, fn=fn):
            y0 = y0.clone().requires_grad_(True)
            y = fn(s, y0, t, throw_on_fail=True, **o)
            g = torch.autograd.grad((y * w).sum(), [y0] + list(s.parameters()), allow_unused=True)
            return [y.detach()] + [x for x in g if x is not None]

        jobs.append(job)
    ctx.describe(terms=terms, nb=nb, n=n, threads=len(jobs), systems=len(systems))
    judge(ctx, jobs, trace)


@case("P37", 60, 1200)
def simulations(ctx):
    """A material model shared by several threads"""
    nb = ctx.int(1, 3)
    g = gens.Gen(ctx, batch=nb, P=gens.Params())
    obj, ref = g.model(flow=g.isokin() if ctx.flip(0.6) else None, dkind=ctx.pick("hl", "const", "none"))
    trace = []
    real = obj.forward

    def noted(*a):
        trace.append(threading.get_ident())
        return real(*a)

    obj.forward = noted
    intg = models.ModelIntegrator(obj, use_adjoint=ctx.flip(), block_size=ctx.pick(1, 3, 20), rtol=1e-15,
                                  atol=1e-8, miter=15, throw_on_fail=True)
    jobs = []
    for _ in range(ctx.int(2, 3)):
        nt = ctx.pick(2, 3, 5)
        t, e, T = gens.history(ctx, nt, nb, emax=0.004)
        c = torch.tensor(ctx.rng.integers(0, 2, size=nb))
        how = ctx.pick("strain", "stress", "both")
        w = ctx.normal(nt, nb)

        def job(t=t, e=e, T=T, c=c, how=how, w=w):
            y = {"strain": lambda: intg.solve_strain(t, e, T),
                 "stress": lambda: intg.solve_stress(t, e * 1e4, T),
                 "both": lambda: intg.solve_both(t, T, e * (1.0 + 9999.0 * c), c)}[how]()
            if not y.requires_grad:
                return [y.detach()]
            gr = torch.autograd.grad((y[..., 0] * w).sum(), list(obj.parameters()), allow_unused=True)
            return [y.detach()] + [x for x in gr if x is not None]

        jobs.append(job)
    ctx.describe(model=ref.kind, nb=nb, threads=len(jobs))
    judge(ctx, jobs, trace)
