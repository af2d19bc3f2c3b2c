"""P10: small batched linear and nonlinear solvers"""
import warnings

import torch

from mon.common import case
from pyoptmat import solvers

RULE = (
    "random batched linear/nonlinear systems solved by every solver, judged by the residual and a "
    "dense reference; a case counts if its (solver, size, batch, options) signature is new"
)


class Prob:
    """F(x) = A x + c tanh(x) + q x^3 - b, strongly monotone"""

    def __init__(self, ctx, sh, n, diag=False):
        self.A = torch.diag_embed(ctx.uni(1.0, 4.0, *sh, n))
        if not diag:
            self.A = self.A + 0.3 / n * ctx.normal(*sh, n, n)
        self.c = ctx.uni(0.0, 1.0, *sh, n)
        self.q = ctx.uni(0.0, 1.0, *sh, n) * (1.0 if ctx.flip() else 0.0)
        self.x = ctx.uni(-1.5, 1.5, *sh, n)
        self.b = 0.0
        self.b = self.rj(self.x)[0]
        self.calls = 0

    def rj(self, x):
        """Residual, Jacobian"""
        R = (self.A @ x[..., None])[..., 0] + self.c * torch.tanh(x) + self.q * x ** 3 - self.b
        J = self.A + torch.diag_embed(self.c * (1 - torch.tanh(x) ** 2) + 3 * self.q * x ** 2)
        return R, J

    def __call__(self, x):
        self.calls += 1
        return self.rj(x)


def guarded(fn, *a, **k):
    """Result, signalled"""
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        r = fn(*a, **k)
    return r, any("did not succeed" in str(w.message) for w in rec)


def converged(p, x, x0, rtol, atol, slack=3.0):
    """Convergence criterion evaluated independently"""
    n0 = p.rj(x0)[0].norm(dim=-1)
    n1 = p.rj(x)[0].norm(dim=-1)
    if not torch.isfinite(n1).all():
        return False
    return not (bool((n1 > slack * atol).any()) and bool((n1 > slack * rtol * n0).any()))


@case("P10", 2500, 50000)
def newton(ctx):
    """Newton with and without line search, restarted from anywhere"""
    n = ctx.pick(1, 1, 2, 3, 5)
    sh = ctx.pick((), (1,), (4,), (2, 3), (3, 1, 2)) if True else None
    if sh == ():
        sh = (1,)
    name = ctx.cycle("newton", "bt", "reuse")
    if name == "reuse":
        sh, n = (ctx.int(1, 4),), ctx.pick(2, 3, 5, 8)
    lin = ctx.pick("lu", "lu", "diag")
    p = Prob(ctx, sh, n, diag=lin == "diag" and name != "reuse")
    x0 = p.x + ctx.normal(*sh, n) * ctx.pick(0.0, 1e-3, 0.3, 1.0)
    if ctx.flip(0.2):
        x0[0] = p.x[0]
    keep = x0.clone()
    rtol, atol = ctx.pick((1e-6, 1e-10), (1e-12, 1e-12), (1e-3, 1e-3))
    if name == "reuse" and rtol == 1e-12:
        rtol, atol = 1e-9, 1e-9
    miter = ctx.pick(100, 100, 30)
    ctx.describe(solver=name, shape=list(sh), n=n, linsolver=lin, rtol=rtol, atol=atol)
    ctx.sig(name, sh, n, lin, rtol, miter)
    if name == "reuse":
        s = solvers.PreconditionerReuseNonlinearSolver()
        fn = lambda f, x, **k: s.solve(f, x, ltol=1e-13, **k)
    else:
        f0 = solvers.newton_raphson if name == "newton" else solvers.newton_raphson_bt
        fn = lambda f, x, **k: f0(f, x, linsolver=lin, **k)
    for it in range(2):
        (x, J), told = guarded(fn, p, x0, rtol=rtol, atol=atol, miter=miter)
        ctx.shape("solution", x, keep.shape)
        ok = converged(p, x, keep, rtol, atol)
        ctx.expect(ok, "not a root of the system", residual=p.rj(x)[0])
        ctx.expect(not told, "warned although the system was solved")
        err = 0.2 if rtol == 1e-3 else 1e-4 if rtol == 1e-6 else 1e-7
        ctx.close("root", x, p.x, rtol=0, atol=err)
        ctx.close("returned Jacobian", J, p.rj(x)[1], rtol=0, atol=10 * err)
        ctx.same("starting point", x0, keep)
        if it == 0:
            p = Prob(ctx, sh, n, diag=lin == "diag" and name != "reuse") if ctx.flip() else p
            x0 = p.x + 0.1 * ctx.normal(*sh, n)
            keep = x0.clone()
    ctx.saw("function evaluations", p.calls)


@case("P10", 700, 15000)
def unsolved(ctx):
    """Failing solves warn"""
    n = ctx.pick(1, 2, 3)
    sh = (ctx.int(1, 4),)
    name = ctx.cycle("newton", "bt", "reuse")
    if name == "reuse":
        n = ctx.pick(2, 3)
    mode = ctx.pick("noroot", "nan", "inf", "miter")
    p = Prob(ctx, sh, n)
    x0 = p.x + ctx.uni(0.5, 1.0, *sh, n)
    base = p.rj
    hit = ctx.int(0, sh[0] - 1)
    if mode == "noroot":
        def rj(x):
            R, J = base(x)
            R, J = R.clone(), J.clone()
            R[hit] = x[hit] ** 2 + 1.0
            J[hit] = torch.diag_embed(2 * x[hit])
            return R, J
        p.rj = rj
    elif mode in ("nan", "inf"):
        def rj(x):
            R, J = base(x)
            R = R.clone()
            R[hit, 0] = float(mode)
            return R, J
        p.rj = rj
    else:
        p.q = p.q + 1.0
    miter = ctx.pick(0, 1) if mode == "miter" else ctx.pick(3, 10, 25)
    fn = {"newton": solvers.newton_raphson, "bt": solvers.newton_raphson_bt,
          "reuse": solvers.PreconditionerReuseNonlinearSolver().solve}[name]
    ctx.describe(solver=name, mode=mode, n=n, batch=sh[0], miter=miter)
    ctx.sig(name, mode, n, sh, hit, miter)
    keep = x0.clone()
    try:
        (x, _), told = guarded(fn, p, x0, rtol=1e-9, atol=1e-9, miter=miter)
    except RuntimeError as e:
        if name == "reuse":  # the Krylov solver cannot digest the system, and says so
            ctx.saw("raised")
            return
        raise e
    ctx.same("starting point", x0, keep)
    if not converged(p, x, keep, 1e-9, 1e-9):
        ctx.saw("unsolved systems")
        ctx.expect(told, "silently returned something that is not a root")
    else:
        ctx.saw("solved systems")


@case("P10", 2500, 50000)
def linear(ctx):
    """Direct, Jacobi and Krylov solution of linear systems"""
    n, nb = ctx.pick(1, 2, 3, 4, 6, 10, 15), ctx.int(1, 5) if ctx.flip(0.85) else ctx.int(20, 80)
    name = ctx.cycle("lu", "jacobi", "gmres", "lu_gmres", "jacobi_gmres")
    A = torch.diag_embed(ctx.uni(1.0, 4.0, nb, n))
    if name != "jacobi":
        # some members may be far easier than others
        easy = ctx.logu(1e-6, 1.0, nb, 1, 1) if ctx.flip() else 1.0
        if ctx.flip(0.3):
            A = torch.eye(n) * A[:, :1, :1]
        A = A + 0.5 / n * easy * ctx.normal(nb, n, n)
    x = ctx.normal(nb, n)
    b = (A @ x[..., None])[..., 0]
    if ctx.flip(0.2):
        x[0], b[0] = 0.0, 0.0
    kw = {}
    if "gmres" in name:
        if ctx.flip():
            kw["x0"] = x * ctx.pick(0.0, 0.9, 1.0) + ctx.pick(0.0, 0.1) * ctx.normal(nb, n)
        kw["tol"] = ctx.pick(1e-10, 1e-8, 1e-6)
        if ctx.flip(0.3) and name != "lu_gmres":
            kw["check"] = ctx.pick(1, 2, 3)
    keep = [v.clone() for v in (A, b, kw.get("x0", b))]
    ctx.describe(solver=name, n=n, nb=nb, options={k: v for k, v in kw.items() if k != "x0"})
    ctx.sig(name, n, nb, kw.get("tol"), kw.get("check"), "x0" in kw)
    fn = {"lu": solvers.lu_linear_solve, "jacobi": solvers.jacobi_iteration_linear_solve,
          "gmres": solvers.gmres, "lu_gmres": solvers.lu_gmres,
          "jacobi_gmres": solvers.jacobi_gmres}[name]
    got = fn(A, b, **kw)
    tol = kw.get("tol", 1e-10)
    ctx.shape("solution", got, b.shape)
    ctx.close(f"solution by {name}", got, x, rtol=1e-9, atol=5 * tol)
    ctx.same("matrix", A, keep[0])
    ctx.same("right hand side", b, keep[1])
    if "x0" in kw:
        ctx.same("starting point", kw["x0"], keep[2])


@case("P10", 200, 5000)
def line_search(ctx):
    """Backtracking solves systems on which the plain steps overshoot, whatever the other members do"""
    n, sh = ctx.pick(1, 2, 3), (ctx.int(1, 5),)
    root, k = ctx.uni(-1.0, 1.0, *sh, n), ctx.uni(0.5, 2.0, *sh, n)
    far = ctx.uni(1.8, 5.0, *sh, 1) * torch.where(ctx.uni(0, 1, *sh, n) < 0.5, -1.0, 1.0)
    if ctx.flip(0.3):
        far[0] = ctx.pick(0.0, 0.01)
    x0 = root + far / k
    keep = x0.clone()
    tried = []

    def fn(x):
        d = k * (x - root)
        tried.append(x.clone())
        return torch.atan(d), torch.diag_embed(k / (1 + d ** 2))

    ctx.describe(n=n, batch=sh[0])
    ctx.sig(n, sh, int((far.abs() < 1).any()))
    (x, _), told = guarded(solvers.newton_raphson_bt, fn, x0, rtol=1e-12, atol=1e-10)
    ctx.saw("points tried", len(tried))
    ctx.expect(not told, "the line search did not solve the system")
    ctx.close("root", x, root, rtol=0, atol=1e-8)
    ctx.same("starting point", x0, keep)
