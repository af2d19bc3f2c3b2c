"""P26: experimental data are loaded completely and unchanged"""
import numpy as np
import torch
import xarray as xr

from mon.common import case
from pyoptmat import experiments

RULE = (
    "random data sets of mixed types and controls (also with integer columns); a case counts if its "
    "(types, controls, shape, storage types) signature is new"
)

NAMES = ["tensile", "relaxation", "strain_cyclic", "creep", "stress_cyclic", "abstract_tensile",
         "direct_data"]


@case("P26", 1500, 30000)
def load(ctx):
    """Load a data set"""
    nt, ne = ctx.int(1, 20), ctx.int(1, 9)
    types = [NAMES[i] for i in ctx.rng.integers(0, 7, size=ne)]
    control = [ctx.pick("strain", "stress") for _ in range(ne)]
    if ctx.flip(0.2):
        control = [control[0]] * ne
    # times and temperatures may be stored as whole numbers
    kt, kT = ctx.pick("float64", "float64", "int64"), ctx.pick("float64", "float64", "int64")
    raw = {
        "time": np.cumsum(ctx.rng.uniform(0.0, 100.0, size=(nt, ne)), 0).astype(kt),
        "temperature": ctx.rng.uniform(300.0, 1200.0, size=(nt, ne)).astype(kT),
        "strain": ctx.rng.standard_normal((nt, ne)) * 0.02,
        "stress": ctx.rng.standard_normal((nt, ne)) * 200.0,
        "cycle": np.sort(ctx.rng.integers(0, 5, size=(nt, ne)), 0),
    }
    ds = xr.Dataset(
        {k: (["ntime", "nexp"], v) for k, v in raw.items()}
        | {"type": (["nexp"], np.array(types)), "control": (["nexp"], np.array(control))},
        attrs={"nrates": 1})
    keep = ds.copy(deep=True)
    ctx.describe(ntime=nt, types=types, control=control, storage=[kt, kT])
    ctx.sig(nt, tuple(types), tuple(control), kt, kT)
    data, results, cycles, ty, co = experiments.load_results(ds)
    st = np.array(control) == "stress"
    ctx.shape("data", data, (3, nt, ne))
    ctx.close("times", data[0], raw["time"], rtol=0.0, atol=0.0)
    ctx.close("temperatures", data[1], raw["temperature"], rtol=0.0, atol=0.0)
    ctx.close("prescribed histories", data[2], np.where(st, raw["stress"], raw["strain"]), rtol=0.0, atol=0.0)
    ctx.close("results", results, np.where(st, raw["strain"], raw["stress"]), rtol=0.0, atol=0.0)
    ctx.close("cycles", cycles, raw["cycle"], rtol=0.0, atol=0.0)
    ctx.expect(ty.tolist() == [NAMES.index(t) for t in types], "types", got=ty)
    ctx.expect(co.tolist() == [int(s) for s in st], "control", got=co)
    ctx.expect(ds.equals(keep), "the data set is not modified")
    ctx.expect(bool(torch.isfinite(data).all()), "no gaps")
    # the loaded tensors are what the conversion of results expects
    out = experiments.convert_results(results, cycles, ty)
    ctx.shape("converted", out, (nt, ne))


@case("P26", 100, 1000)
def unknown(ctx):
    """Unknown names are rejected instead of being given a number"""
    nt, ne = 4, ctx.int(1, 4)
    types, control = ["tensile"] * ne, ["strain"] * ne
    which = ctx.pick("type", "control")
    (types if which == "type" else control)[ctx.int(0, ne - 1)] = ctx.pick("torsion", "", "Strain", "0")
    z = np.zeros((nt, ne))
    ds = xr.Dataset({k: (["ntime", "nexp"], z) for k in ("time", "temperature", "strain", "stress")}
                    | {"cycle": (["ntime", "nexp"], z.astype(int)),
                       "type": (["nexp"], np.array(types)), "control": (["nexp"], np.array(control))})
    ctx.describe(types=types, control=control)
    ctx.sig(tuple(types), tuple(control))
    try:
        experiments.load_results(ds)
    except (KeyError, ValueError):
        ctx.saw("rejections")
        return
    ctx.fail("an unknown name was accepted", types=types, control=control)
