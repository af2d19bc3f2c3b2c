"""Entry point: python -m mon.main <PROPERTY> <tier> | replay <file>"""
import importlib
import json
import os
import sys

from mon import common

sys.dont_write_bytecode = True
sys.path.insert(0, common.REPO)


def setup():
    """Numerical environment"""
    import torch
    import torch._dynamo  # loaded lazily otherwise, the watchdog must not interrupt that

    torch.set_num_threads(1)
    torch.set_default_dtype(torch.float64)
    import pyoptmat

    where = os.path.dirname(os.path.abspath(pyoptmat.__path__[0]))
    if os.path.realpath(where) != os.path.realpath(common.REPO):
        print(f"pyoptmat was imported from {where}, not from {common.REPO}")
        sys.exit(2)


def main():
    """Dispatch"""
    args = sys.argv[1:]
    if args[0] == "replay":
        with open(args[1], encoding="utf-8") as f:
            r = json.load(f)
        setup()
        importlib.import_module(f"mon.{r['property'].lower()}")
        fn = next(f for n, f, _, _ in common.CASES[r["property"]] if n == r["kind"])
        out = common.run_case(r["property"], r["kind"], fn, r["index"], r["seed"], r["tier"])
        print(json.dumps(out, indent=1, default=str))
        if out["status"] == "violated":
            print(f"VIOLATION property={r['property']} replay={args[1]}")
            sys.exit(1)
        sys.exit(0 if out["status"] == "held" else 2)
    prop, tier = args[0], args[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    setup()
    mod = importlib.import_module(f"mon.{prop.lower()}")
    sys.exit(common.run_property(prop, tier, seed, mod.RULE))


if __name__ == "__main__":
    main()
