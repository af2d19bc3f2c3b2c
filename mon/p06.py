"""P06: a gradient belongs to its own forward pass"""
import torch

from mon import odes
from mon.common import case, Skip
from mon.p02 import loss_of
from pyoptmat import ode

RULE = (
    "histories of forward and backward passes on shared problems; a case counts if its operation "
    "sequence is new; every backward pass is judged against an independent derivative"
)


def rejecting(f):
    """Torch may refuse in place changes of values it needs; what must not happen are wrong gradients"""
    try:
        f()
    except RuntimeError as e:
        if "inplace" in str(e):
            raise Skip from e
        raise


@case("P06", 900, 20000)
def interleaved(ctx):
    """Random interleavings of forward/backward passes over shared systems"""
    nb, n = ctx.pick(1, 2, 3), ctx.pick(1, 2, 3)
    terms = [t for t in ("lin", "tanh", "cube", "sin", "ext") if ctx.flip(0.6)] or ["cube", "sin"]
    systems = [odes.System(ctx, nb, n, terms=terms, stiff=ctx.logu(0.3, 1.5))
               for _ in range(ctx.int(1, 2))]
    live, trace = [], []
    for p in [p for s in systems for p in s.parameters()]:
        p.grad = torch.zeros_like(p)
    total = {id(p): torch.zeros_like(p) for s in systems for p in s.parameters()}
    y0s = [ctx.uni(-1, 1, nb, n).requires_grad_(True) for _ in range(2)]
    for z in y0s:
        z.grad = torch.zeros_like(z)
        total[id(z)] = torch.zeros_like(z)
    made = back = 0
    want_runs = ctx.int(2, 4)
    scale = 1.0
    for _ in range(14):
        if (made < want_runs and ctx.flip(0.6)) or not live:
            if made >= want_runs:
                break
            s, z = ctx.pick(*systems), ctx.pick(*y0s)
            nt = ctx.pick(2, 3, 5, 9)
            t = odes.grid(ctx, nt, nb, tmax=1.0)
            o = odes.options(ctx, nt)
            fn = ctx.pick(ode.odeint_adjoint, ode.odeint_adjoint, ode.odeint_adjoint, ode.odeint)
            ref = odes.reference(s, z, t, o["method"], grad=True)
            if ref is None or float(ref.detach().abs().max()) > 20:
                raise Skip
            y = fn(s, z, t, throw_on_fail=True, **o)
            L = loss_of(ctx, (nt, nb, n))
            if fn is ode.odeint_adjoint and ctx.flip(0.3):
                c = ctx.uni(0.3, 2.0)  # the caller works on the result and reuses its buffers
                rejecting(lambda: y.mul_(c))
                t.add_(1.0)
                ref = ref * c
                trace.append("I")
            live.append([y, ref, L, [z] + list(s.parameters()), 0])
            made += 1
            trace.append(f"F{made}{'a' if fn is ode.odeint_adjoint else 'b'}")
            continue
        k = ctx.int(0, len(live) - 1)
        y, ref, L, ps, used = live[k]
        if ctx.flip(0.25):
            with torch.no_grad():
                ode.odeint(systems[0], y0s[0], torch.linspace(0, 0.5, 4)[:, None].expand(-1, nb))
            trace.append("N")
        keep = ctx.flip(0.4)
        if ctx.flip(0.3):
            L = loss_of(ctx, tuple(y.shape))
        l1, l2 = L(y), L(ref)
        want = torch.autograd.grad(l2, ps, allow_unused=True, retain_graph=True)
        rejecting(lambda: l1.backward(retain_graph=keep))
        back += 1
        trace.append(f"B{k}{'r' if keep else ''}")
        for p, w in zip(ps, want):
            if w is not None:
                total[id(p)] = total[id(p)] + w
        scale = max([scale] + [float(v.abs().max()) for v in total.values()])
        for s in systems:
            for p in s.parameters():
                ctx.close("accumulated parameter gradient", p.grad, total[id(p)], rtol=1e-6,
                          atol=1e-6 * scale, trace=trace)
        for z in y0s:
            ctx.close("accumulated initial state gradient", z.grad, total[id(z)], rtol=1e-6,
                      atol=1e-6 * scale, trace=trace)
        live[k][4] += 1
        if not keep:
            live.pop(k)
    ctx.describe(terms=terms, nb=nb, n=n, trace=trace)
    ctx.sig(tuple(trace), tuple(terms), nb, n)
    ctx.saw("forward passes", made)
    ctx.saw("backward passes", back)


@case("P06", 150, 3000)
def joint_loss(ctx):
    """One loss over several simulations of the same system, and training steps in between"""
    nb, n = ctx.pick(1, 2), ctx.pick(1, 2, 3)
    terms = [t for t in ("lin", "tanh", "cube", "sin", "ext") if ctx.flip(0.6)] or ["cube", "sin"]
    s = odes.System(ctx, nb, n, terms=terms, stiff=0.7)
    ps = list(s.parameters())
    runs = []
    for _ in range(ctx.int(2, 3)):
        nt = ctx.pick(2, 4, 7)
        runs.append((ctx.uni(-1, 1, nb, n), odes.grid(ctx, nt, nb, tmax=1.0), odes.options(ctx, nt),
                     loss_of(ctx, (nt, nb, n)), ctx.pick(ode.odeint_adjoint, ode.odeint)))
    ctx.describe(terms=terms, nb=nb, n=n, runs=len(runs))
    ctx.sig(tuple(terms), nb, n, [tuple(sorted(r[2].items())) for r in runs])
    for _ in range(3):
        refs = [odes.reference(s, y0, t, o["method"], grad=True) for y0, t, o, _, _ in runs]
        if any(r is None or float(r.detach().abs().max()) > 20 for r in refs):
            raise Skip
        want = torch.autograd.grad(sum(r[3](y) for r, y in zip(runs, refs)), ps, allow_unused=True)
        loss = sum(L(fn(s, y0, t, throw_on_fail=True, **o)) for y0, t, o, L, fn in runs)
        got = torch.autograd.grad(loss, ps, allow_unused=True)
        sc = max([1.0] + [float(w.abs().max()) for w in want if w is not None])
        for p, a, b in zip(ps, got, want):
            a = torch.zeros_like(p) if a is None else a
            b = torch.zeros_like(p) if b is None else b
            ctx.close("gradient of the joint loss", a, b, rtol=1e-6, atol=1e-6 * sc)
        ctx.saw("training steps")
        with torch.no_grad():
            for p, a in zip(ps, got):
                if a is not None:
                    p -= 0.02 / sc * a
