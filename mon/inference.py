"""Random data sets and model makers for the calibration checks"""
import torch

from mon.p24 import labels, one
from pyoptmat import flowrules, hardening, models
from pyoptmat.temperature import ConstantParameter as CP

KW = dict(rtol=1e-15, atol=1e-8, miter=40, throw_on_fail=True)
RANGES = {"E": (6e4, 1.2e5), "n": (2.0, 4.0), "eta": (400.0, 900.0), "s0": (10.0, 60.0),
          "R": (20.0, 100.0), "d": (5.0, 30.0), "C": (2e3, 1e4), "g": (20.0, 100.0)}


def dataset(ctx, nt, ne, types=None):
    """data (3,ntime,nexp), cycles, types, control"""
    ty = torch.tensor(ctx.rng.integers(0, 7, size=ne)) if types is None else types
    dt = ctx.uni(0.2, 2.0, nt - 1, ne)
    t = torch.cat([torch.zeros(1, ne), dt.cumsum(0)])
    T = ctx.uni(300.0, 900.0, ne).expand(nt, ne)
    co, load = [], []
    for j in range(ne):
        typ = int(ty[j])
        c = 1 if typ in (3, 4) else (ctx.int(0, 1) if typ == 6 else 0)
        top = ctx.uni(0.003, 0.012) if c == 0 else ctx.uni(60.0, 120.0)
        f = torch.linspace(0, 1, nt)
        if typ in (1, 3):
            f = torch.clamp(2.0 * f, max=1.0)
        if typ in (2, 4):
            f = torch.sin(f * ctx.uni(4.0, 10.0))
        co.append(c)
        load.append(f * top)
    cyc = torch.stack([labels(ctx, int(a), nt) for a in ty], 1)
    return torch.stack([t, T, torch.stack(load, 1)]), cyc, ty, torch.tensor(co)


class Maker:
    """
    Builds integrators from parameters scaled to be about 0.5.

    names: the calibrated parameters in the order in which they are given, the others are fixed
    """

    def __init__(self, ctx, names=None, vector=None):
        self.vector = ctx.flip(0.5) if vector is None else vector
        allow = ["E", "n", "eta", "s0", "R", "d"] + (["C", "g"] if self.vector else [])
        if names is None:
            k = ctx.int(1, 4)
            names = [allow[i] for i in ctx.rng.permutation(len(allow))[:k]]
        self.names = names
        self.nk = 2
        self.fixed = {
            k: torch.as_tensor(ctx.uni(0.3, 0.7, *self.shape(k)), dtype=torch.float64) for k in allow}
        self.block = ctx.pick(1, 3, 50)
        self.built = []

    def shape(self, name):
        """Shape of a parameter of a single test"""
        return (self.nk,) if name in ("C", "g") else ()

    def phys(self, name):
        """Physical value as a function of the scaled one"""
        lo, hi = RANGES[name]
        return lambda x: lo + (hi - lo) * x

    def __call__(self, *args, use_adjoint=True, **kw):
        v = dict(self.fixed)
        assert len(args) == len(self.names)
        v.update(zip(self.names, args))
        self.built.append([tuple(a.shape) for a in args])
        p = lambda k: CP(v[k], scaling=self.phys(k))
        iso = hardening.VoceIsotropicHardeningModel(p("R"), p("d"))
        kin = hardening.ChabocheHardeningModel(p("C"), p("g")) if self.vector else \
            hardening.NoKinematicHardeningModel()
        fl = flowrules.IsoKinViscoplasticity(p("n"), p("eta"), p("s0"), iso, kin)
        return models.ModelIntegrator(models.InelasticModel(p("E"), fl), use_adjoint=use_adjoint,
                                      block_size=self.block, **KW, **kw)

    def alone(self, params, data, cyc, ty, co):
        """Condensed prediction of every experiment, each simulated alone with its own parameters"""
        out = []
        for j in range(data.shape[-1]):
            m = self(*[p(j) for p in params], use_adjoint=False)
            d = data[:, :, j:j + 1]
            y = (m.solve_stress if int(co[j]) else m.solve_strain)(d[0], d[2], d[1])
            out.append(torch.stack(one(int(ty[j]), cyc[:, j].tolist(), list(y[:, 0, 0]))))
        return torch.stack(out, 1)
