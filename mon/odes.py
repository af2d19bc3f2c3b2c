"""Random systems of ordinary differential equations and an independent Euler integrator"""
import torch
from torch import nn


def sizes(ctx, nb, n, nt, most=100):
    """
    Now and then a problem much larger in one of its sizes, or in another unit of time

    Called before the system and the times are drawn, returns the sizes
    """
    ctx.unit = ctx.pick(*[1.0] * 5, 1e-9, 1e-4, 1e5)
    k = ctx.int(0, 60)
    if k == 0:
        nb = ctx.int(7, 40)
    if k == 1:
        n = ctx.int(5, 10)
    if k == 2:
        nt = ctx.int(35, most)
    return nb, n, nt


class System(nn.Module):
    """
    y' = D y + M tanh(y) - q y^3 + r y (1-y) + a sin(w t) + x t/(1+t^2)

    Any of the terms may be absent, coefficients may differ per batch member.
    Analytic Jacobian.  Optionally some coefficients are not registered as
    parameters of the module (extra parameters).
    """

    def __init__(self, ctx, nb, n, terms=None, stiff=1.0, perbatch=None, extra=(), unused=False,
                 frozen=False, xval=None):
        super().__init__()
        allt = ("lin", "tanh", "cube", "logi", "sin", "ext")
        if terms is None:
            terms = [t for t in allt if ctx.flip(0.55)] or ["lin"]
        self.terms = tuple(terms)
        self.n = n
        pb = ctx.flip() if perbatch is None else perbatch
        sh = (nb,) if pb else ()
        self.unit = getattr(ctx, "unit", 1.0)
        big = min(1.0, 2.0 / n ** 0.5)  # coupling of many variables
        mk = {
            "lin": lambda: (ctx.normal(*sh, n, n) * 0.4 * big - torch.eye(n) * ctx.uni(0.5, 1.5)) * stiff,
            "tanh": lambda: ctx.normal(*sh, n, n) * 0.3 * big,
            "cube": lambda: ctx.uni(0.0, 2.0, *sh, n) * stiff
            * torch.tensor((ctx.rng.random(sh + (1,)) > 0.3).astype(float)),
            "logi": lambda: ctx.uni(0.0, 0.3, *sh, n),
            "sin": lambda: ctx.normal(*sh, n),
            "ext": lambda: ctx.normal(*sh, n),
        }
        self.extra_tensors = []
        self.raw = {}
        for t in self.terms:
            v = mk[t]()
            if t in extra:
                v = v.requires_grad_(True)
                self.extra_tensors.append(v)
                self.raw[t] = v
            else:
                setattr(self, t, nn.Parameter(v))
        if unused:
            self.dangling = nn.Parameter(ctx.normal(2))
        if frozen:
            ps = list(self.parameters())
            if len(ps) > 1:
                ps[ctx.int(0, len(ps) - 1)].requires_grad_(False)
        self.w = ctx.uni(0.5, 3.0)
        self.calls = []
        self.record = False
        self.strided = ctx.flip(0.3)

    def get(self, t):
        """A coefficient"""
        return self.raw[t] if t in self.raw else getattr(self, t)

    def forward(self, t, y):
        """Rate and Jacobian"""
        if self.record:
            self.calls.append((t.detach().clone(), y.detach().clone()))
        n, t = self.n, t / self.unit
        I = torch.eye(n, device=y.device)
        f = torch.zeros_like(y)
        J = torch.zeros(y.shape + (n,), device=y.device)
        if "lin" in self.terms:
            A = self.get("lin")
            f = f + torch.einsum("...ij,...j->...i", A.expand(y.shape + (n,)), y)
            J = J + A
        if "tanh" in self.terms:
            A = self.get("tanh")
            th = torch.tanh(y)
            f = f + torch.einsum("...ij,...j->...i", A.expand(y.shape + (n,)), th)
            J = J + A * (1 - th ** 2)[..., None, :]
        if "cube" in self.terms:
            q = self.get("cube")
            f = f - q * y ** 3
            J = J - (3 * q * y ** 2)[..., None] * I
        if "logi" in self.terms:
            r = self.get("logi")
            f = f + r * y * (1 - y)
            J = J + (r * (1 - 2 * y))[..., None] * I
        if "sin" in self.terms:
            f = f + self.get("sin") * torch.sin(self.w * t)[..., None]
        if "ext" in self.terms:
            f = f + self.get("ext") * (t / (1 + t ** 2))[..., None]
        if self.unit != 1.0:
            f, J = f / self.unit, J / self.unit
        if self.strided:
            J = J.transpose(-1, -2).contiguous().transpose(-1, -2)
        return f, J

    def member(self, idx):
        """The same system for a selection of the batch members"""
        import copy

        m = copy.deepcopy(self)
        for t in self.terms:
            v = self.get(t).detach()
            base = 2 if t in ("lin", "tanh") else 1
            if v.dim() > base:
                v = v[idx]
            if t in m.raw:
                m.raw[t] = v.clone().requires_grad_(True)
            else:
                setattr(m, t, nn.Parameter(v.clone()))
        m.extra_tensors = [m.raw[t] for t in self.terms if t in m.raw]
        return m


def grid(ctx, ntime, nb, tmax=2.0, repeats=False, shared=None):
    """Times (ntime,nb), non-uniform, different per batch member unless shared"""
    shared = ctx.flip(0.3) if shared is None else shared
    inc = ctx.logu(0.1, 1.0, max(ntime - 1, 0), 1 if shared else nb).expand(-1, nb).clone()
    if ntime > 1:
        inc = inc / inc.sum(0) * tmax * ctx.uni(0.5, 1.0)
        if repeats:
            inc[torch.tensor(ctx.rng.random(inc.shape) < 0.2)] = 0.0
    t0 = ctx.pick(0.0, 0.0, 1.3, -0.7)
    return (torch.cat([torch.zeros(1, nb), inc.cumsum(0)]) + t0) * getattr(ctx, "unit", 1.0)


def rates_at(func, t, y):
    """Evaluate the user system one time at a time"""
    with torch.no_grad():
        return torch.stack([func(t[k:k + 1], y[k:k + 1])[0][0] for k in range(t.shape[0])])


def residual(func, times, y, method):
    """Residual of the discretised equations, (ntime-1,nb,n)"""
    y = y.detach()
    f = rates_at(func, times, y)
    dt = times.diff(dim=0)[..., None]
    return y[1:] - y[:-1] - dt * (f[1:] if method == "backward-euler" else f[:-1])


def reference(func, y0, times, method, grad=False, tol=1e-13):
    """
    Step by step Euler integration.  With grad=True the result carries the exact
    derivative of the discrete solution (implicit function theorem)
    """
    ys = [y0]
    for k in range(1, times.shape[0]):
        dt = (times[k] - times[k - 1])[..., None]
        prev = ys[-1]
        if method == "forward-euler":
            f = func(times[k - 1:k], prev[None])[0][0]
            ys.append(prev + dt * f)
            continue
        x = prev.detach().clone()
        with torch.no_grad():
            for _ in range(60):
                f, J = func(times[k:k + 1], x[None])
                R = x - prev.detach() - dt * f[0]
                A = torch.eye(x.shape[-1]) - J[0] * dt[..., None]
                dx = torch.linalg.solve(A, R[..., None])[..., 0]
                x = x - dx
                if float(dx.abs().max()) <= tol * (1 + float(x.abs().max())):
                    break
            else:
                return None
        if grad:
            f, J = func(times[k:k + 1], x[None])
            R = x - prev - dt * f[0]
            A = (torch.eye(x.shape[-1]) - J[0] * dt[..., None]).detach()
            x = x - torch.linalg.solve(A, R[..., None])[..., 0]
        ys.append(x)
        if not torch.isfinite(x).all():
            return None
    out = torch.stack(ys)
    return out if grad else out.detach()


def options(ctx, ntime, tight=True, method=None):
    """Random solver options"""
    o = {
        "method": method or ctx.pick("backward-euler", "forward-euler"),
        "block_size": ctx.pick(1, 2, 3, 4, 5, 6, 7, 8, 11, max(1, ntime - 1), ntime, ntime + 7, 50),
        "linear_solve_method": ctx.pick("direct", "direct", "direct", "dense"),
        "direct_solve_method": ctx.pick("thomas", "pcr", "hybrid"),
        "guess_type": ctx.pick("zero", "zero", "previous"),
    }
    if o["direct_solve_method"] == "hybrid" and ctx.flip(0.8):
        o["direct_solve_min_size"] = ctx.pick(0, 1, 2, 3, 4, 8, 100)
    if tight:
        o["rtol"], o["atol"] = 1e-10, 1e-10
    return o
