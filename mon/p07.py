"""P07: a failed implicit solve is signalled"""
import warnings

import torch

from mon import odes
from mon.common import case
from mon.p02 import mild
from pyoptmat import ode

RULE = (
    "implicit problems with no solution, undefined rates or too few iterations; an independent "
    "residual decides whether the returned trajectory is a solution; a case counts if its "
    "(failure mode, problem, options) signature is new"
)


class NoRoot(torch.nn.Module):
    """y' = y^2 + c : no solution of the step for large steps, on chosen members"""

    def __init__(self, c, poison=None, tstart=0.0):
        super().__init__()
        self.c = torch.nn.Parameter(c)
        self.poison = poison
        self.tstart = tstart

    def forward(self, t, y):
        f = y ** 2 + self.c
        if self.poison is not None:
            w = (t > self.tstart)[..., None] & (self.c > 0)
            f = torch.where(w, torch.full_like(f, self.poison), f)
        return f, torch.diag_embed(2 * y)


def run(fn, s, y0, t, **o):
    """(result or None, signalled)"""
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        # categories Python does not show a user by default announce nothing
        for c in (DeprecationWarning, PendingDeprecationWarning,
                  ImportWarning, ResourceWarning):
            warnings.simplefilter("ignore", c)
        try:
            y = fn(s, y0, t, **o).detach()
        except RuntimeError as e:
            if "did not succeed" not in str(e):
                raise
            return None, True
    return y, any("did not succeed" in str(r.message) for r in rec)


def solved_blocks(s, y, t, method, bs, rtol, atol):
    """Does every block satisfy the convergence criterion (with a factor in hand)?"""
    R = odes.residual(s, t, y, method)
    f = odes.rates_at(s, t, y)
    dt = t.diff(dim=0)[..., None]
    for k in range(0, t.shape[0] - 1, bs):
        m = min(bs, t.shape[0] - 1 - k)
        nR = R[k:k + m].transpose(0, 1).flatten(1).norm(dim=-1)
        hold = y[k:k + 1].expand(m + 1, -1, -1)
        f0 = odes.rates_at(s, t[k:k + m + 1], hold)
        d0 = dt[k:k + m] * (f0[1:] if method == "backward-euler" else f0[:-1])
        nR0 = d0.transpose(0, 1).flatten(1).norm(dim=-1)
        if not torch.isfinite(nR).all():
            return False
        if bool((nR > 3 * atol).any()) and bool((nR > 3 * rtol * nR0).any()):
            return False
    del f
    return True


@case("P07", 900, 20000)
def unsolvable(ctx):
    """No root, rates that are not finite"""
    nb, n = ctx.pick(1, 2, 3), ctx.pick(1, 2, 3)
    nt = ctx.pick(2, 3, 5, 8)
    mode = ctx.cycle("noroot", "nan", "inf", "fine")
    c = -ctx.uni(0.2, 0.6, nb, n)
    hit = ctx.int(0, nb - 1)
    if mode != "fine":
        c[hit, ctx.int(0, n - 1)] = ctx.uni(3.0, 8.0)
    t = odes.grid(ctx, nt, nb, tmax=1.0)
    late = float(t[ctx.int(0, nt - 2), hit])
    s = NoRoot(c, {"nan": float("nan"), "inf": float("inf")}.get(mode), late)
    if mode == "noroot":
        t = t * ctx.uni(1.5, 4.0) * nt
    o = odes.options(ctx, nt, tight=False, method="backward-euler" if mode == "noroot" else None)
    o["guess_type"] = "zero"
    o["rtol"], o["atol"] = ctx.pick((1e-6, 1e-8), (1e-10, 1e-10), (1e-4, 1e-6))
    o["miter"] = ctx.pick(5, 20, 60)
    y0 = ctx.uni(-0.3, 0.3, nb, n)
    fn = ctx.pick(ode.odeint, ode.odeint_adjoint)
    ctx.describe(mode=mode, nb=nb, n=n, nt=nt, options=o, fn=fn.__name__)
    ctx.sig(mode, nb, n, nt, fn.__name__, tuple(sorted(o.items())))
    y, told = run(fn, s, y0, t, throw_on_fail=False, **o)
    ctx.expect(y is not None, "raised although exceptions were not requested")
    ok = solved_blocks(s, y, t, o["method"], o["block_size"], o["rtol"], o["atol"])
    ctx.saw("unsolved trajectories" if not ok else "solved trajectories")
    if not ok:
        ctx.expect(told, "returned something that does not solve the equations without a warning")
    if mode == "fine" and o["miter"] >= 20:
        ctx.expect(ok, "easy problem was not solved", y=y)
        ctx.expect(not told, "warned although the problem was solved")
    z, raised = run(fn, s, y0, t, throw_on_fail=True, **o)
    if not ok:
        ctx.expect(z is None and raised, "no exception although requested and the solve failed")
    if mode == "fine" and o["miter"] >= 20:
        ctx.expect(z is not None, "exception although the problem was solved")


@case("P07", 500, 10000)
def few_iterations(ctx):
    """Iteration limits that are too small"""
    nb, n = ctx.pick(1, 2, 3), ctx.pick(1, 2, 3)
    nt = ctx.pick(2, 3, 5, 8)
    s = mild(ctx, nb, n)
    t = odes.grid(ctx, nt, nb, tmax=2.0)
    o = odes.options(ctx, nt, tight=False)
    o["guess_type"] = "zero"
    o["rtol"], o["atol"] = 1e-9, 1e-9
    o["miter"] = ctx.pick(0, 1, 2, 3, 4)
    y0 = ctx.uni(-1, 1, nb, n)
    fn = ctx.pick(ode.odeint, ode.odeint_adjoint)
    ctx.describe(terms=s.terms, nb=nb, n=n, nt=nt, options=o, fn=fn.__name__)
    ctx.sig(s.terms, nb, n, nt, fn.__name__, tuple(sorted(o.items())))
    with torch.no_grad():
        y, told = run(fn, s, y0, t, throw_on_fail=False, **o)
        ctx.expect(y is not None, "raised although exceptions were not requested")
        ok = solved_blocks(s, y, t, o["method"], o["block_size"], o["rtol"], o["atol"])
        ctx.saw("unsolved trajectories" if not ok else "solved trajectories")
        if not ok:
            ctx.expect(told, "unconverged result without a warning")
        z, _ = run(fn, s, y0, t, throw_on_fail=True, **o)
        if not ok:
            ctx.expect(z is None, "unconverged result without an exception")
