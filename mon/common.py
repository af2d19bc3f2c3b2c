"""
Runtime monitoring harness shared by all checks.

A check is a set of *case kinds*.  A case kind draws one random workload, drives
the real code in /repo with it and lets an oracle judge what was observed.  The
runner fans the cases out over the cores, collects what the oracles saw and
turns it into a verdict: held / violated / inconclusive.
"""
import json
import os
import signal
import sys
import time
import traceback
import warnings
import zlib

import numpy as np
import torch

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.path.join(VERIF, "evidence")
NPROC = int(os.environ.get("VERIF_PROCS", "8"))
CASE_LIMIT = 25  # s of CPU time, watchdog for one case (never a verdict; inconclusive if frequent)
WALL_LIMIT = 240  # s of wall time, for a case which waits without computing


class Violation(Exception):
    """An oracle refuted the property on an observed execution"""

    def __init__(self, what, detail=None, key=None):
        super().__init__(what)
        self.what = what
        self.detail = detail or {}
        self.key = key


class Hang(BaseException):
    """The case watchdog fired"""


class Skip(Exception):
    """The drawn workload is outside of the quantified domain"""


def short(x, n=6):
    """Small printable form of a value"""
    if torch.is_tensor(x):
        f = x.detach().reshape(-1)
        return {"shape": list(x.shape), "head": [float(v) for v in f[:n].to(torch.float64)]}
    if isinstance(x, np.ndarray):
        return {"shape": list(x.shape), "head": [float(v) for v in x.reshape(-1)[:n]]}
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    if isinstance(x, (list, tuple)):
        return [short(v) for v in x[:n]]
    if isinstance(x, dict):
        return {str(k): short(v) for k, v in x.items()}
    return str(x)[:200]


def tonp(x):
    """Anything to a float64 numpy array"""
    if torch.is_tensor(x):
        return x.detach().to(torch.float64).cpu().numpy()
    return np.asarray(x, dtype=np.float64)


class Ctx:
    """What a case kind sees: randomness, oracles, observation counters"""

    def __init__(self, prop, kind, index, seed, tier):
        self.prop, self.kind, self.index, self.tier = prop, kind, index, tier
        ss = np.random.SeedSequence(
            [seed, zlib.crc32(prop.encode()), zlib.crc32(kind.encode()), index]
        )
        self.rng = np.random.default_rng(ss)
        torch.manual_seed(int(ss.generate_state(1)[0]))
        np.random.seed(int(ss.generate_state(2)[1]))
        self.counts = {}
        self.sigs = []
        self.info = {}
        self.known = []

    # -- randomness
    def pick(self, *xs):
        """One of the arguments"""
        return xs[int(self.rng.integers(len(xs)))]

    def cycle(self, *xs):
        """Like pick, but walks through the options with the case index"""
        return xs[self.index % len(xs)]

    def int(self, a, b):
        """Integer in [a,b]"""
        return int(self.rng.integers(a, b + 1))

    def flip(self, p=0.5):
        """Biased coin"""
        return bool(self.rng.random() < p)

    def uni(self, a, b, *shape):
        """Uniform tensor (or float without shape)"""
        if not shape:
            return float(self.rng.uniform(a, b))
        return torch.tensor(self.rng.uniform(a, b, size=shape))

    def logu(self, a, b, *shape):
        """Log uniform tensor (or float)"""
        if not shape:
            return float(np.exp(self.rng.uniform(np.log(a), np.log(b))))
        return torch.tensor(np.exp(self.rng.uniform(np.log(a), np.log(b), size=shape)))

    def normal(self, *shape):
        """Standard normal tensor"""
        return torch.tensor(self.rng.standard_normal(shape))

    # -- observations
    def saw(self, name, n=1):
        """Count an observation"""
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def sig(self, *xs):
        """Signature of the workload, for the distinct count"""
        self.sigs.append(repr(xs))

    def describe(self, **kw):
        """Write down the case"""
        self.info.update({k: short(v) for k, v in kw.items()})

    # -- oracles
    def fail(self, what, key=None, **detail):
        """Report a violation"""
        raise Violation(what, {k: short(v) for k, v in detail.items()}, key)

    def expect(self, cond, what, key=None, **detail):
        """Oracle on a condition"""
        self.saw("conditions judged")
        if not bool(cond):
            self.fail(what, key=key, **detail)

    def shape(self, what, got, want, key=None):
        """Oracle on a shape"""
        self.saw("shapes judged")
        if tuple(got.shape) != tuple(want):
            self.fail(
                f"{what}: shape {tuple(got.shape)}, expected {tuple(want)}", key=key
            )

    def close(self, what, got, want, rtol=1e-7, atol=1e-10, key=None, scale=None, **detail):
        """Oracle: got equals want.  A NaN on one side only is a difference"""
        g, w = tonp(got), tonp(want)
        if g.shape != w.shape:
            self.fail(f"{what}: shape {g.shape}, expected {w.shape}", key=key, **detail)
        self.saw("values judged", g.size)
        if g.size == 0:
            return
        ref = np.abs(w) if scale is None else np.broadcast_to(np.abs(tonp(scale)), w.shape)
        with np.errstate(all="ignore"):
            bad = ~(np.abs(g - w) <= atol + rtol * ref)
            bad &= ~(g == w)
            bad &= ~(np.isnan(g) & np.isnan(w))
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            self.fail(
                f"{what}: {int(bad.sum())} of {g.size} values differ, e.g. at {i}: "
                f"observed {g[i]!r}, expected {w[i]!r}",
                key=key,
                **detail,
            )

    def same(self, what, got, want, key=None):
        """Oracle: bitwise equality (NaN equal to NaN)"""
        g, w = got, want
        self.saw("values judged", g.numel())
        if g.shape != w.shape or g.dtype != w.dtype:
            self.fail(f"{what}: shape/type changed", key=key)
        eq = (g == w) | (torch.isnan(g.to(torch.float64)) & torch.isnan(w.to(torch.float64)))
        if not bool(eq.all()):
            self.fail(f"{what}: values changed", key=key, before=w, after=g)


def solved(fn, *args, **kw):
    """Run a simulation; a *reported* failure to solve takes the case out of the domain"""
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        try:
            res = fn(*args, **kw)
        except RuntimeError as e:
            if "did not succeed" in str(e):
                raise Skip from e
            raise
    if any("did not succeed" in str(r.message) for r in rec):
        raise Skip
    return res


CASES = {}


def case(prop, quick, thorough, name=None):
    """Register a case kind for a property with its number of cases per tier"""

    def deco(fn):
        CASES.setdefault(prop, []).append((name or fn.__name__, fn, quick, thorough))
        return fn

    return deco


def known_findings():
    """Mechanism keys of the committed findings: {(property, key): text}"""
    out = {}
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt"), encoding="utf-8") as f:
        for line in f:
            if line.startswith("known: "):
                parts = line[len("known: "):].strip().split(" ", 2)
                out[(parts[0].split("=", 1)[1], parts[1].split("=", 1)[1])] = parts[2]
    return out


def _alarm(_s, _f):
    raise Hang()


def run_case(prop, kind, fn, index, seed, tier):
    """Run one case, return a plain dictionary"""
    ctx = Ctx(prop, kind, index, seed, tier)
    out = {"kind": kind, "index": index, "status": "held"}
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_LIMIT)
    signal.alarm(WALL_LIMIT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(ctx)
    except Skip:
        out["status"] = "skipped"
    except Violation as v:
        out.update(status="violated", what=v.what, detail=v.detail, key=v.key)
    except Hang:
        out["status"] = "hang"
    except MemoryError:
        out["status"] = "hang"
    except Exception as e:  # pylint: disable=broad-except
        # Every workload is inside of the documented domain, so nothing may raise
        out.update(
            status="violated",
            what=f"unexpected {type(e).__name__}: {str(e)[:300]}",
            detail={"trace": traceback.format_exc().splitlines()[-14:]},
            key=None,
        )
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
    out.update(counts=ctx.counts, sigs=ctx.sigs, info=ctx.info)
    return out


_JOBS = None


def _quiet():
    """Native libraries of the workers print to the terminal"""
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)


def _work(job):
    prop, kind, lo, hi, seed, tier = job
    fn = next(f for n, f, _, _ in CASES[prop] if n == kind)
    res = []
    for i in range(lo, hi):
        res.append(run_case(prop, kind, fn, i, seed, tier))
    return res


def run_property(prop, tier, seed, rule):
    """Run all the cases of a property, write the evidence, return the exit code"""
    import multiprocessing as mp

    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    for old in os.listdir(EVID):
        if old.startswith(prop + "-") and old.endswith(".replay.json"):
            os.remove(os.path.join(EVID, old))
    jobs = []
    for name, _, q, t in CASES[prop]:
        n = q if tier == "quick" else t
        step = max(1, min(8, -(-n // (NPROC * 3))))
        jobs += [(prop, name, lo, min(n, lo + step), seed, tier) for lo in range(0, n, step)]
    jobs.sort(key=lambda j: (j[2], j[1]))
    total = sum(j[3] - j[2] for j in jobs)
    limit = 800 if tier == "quick" else 3600 * 6
    results = []
    timed_out = False
    with mp.get_context("fork").Pool(NPROC, _quiet) as pool:
        pend = pool.imap_unordered(_work, jobs)
        for _ in range(len(jobs)):
            try:
                results += pend.next(timeout=max(1.0, limit - (time.time() - t0)))
            except mp.TimeoutError:
                timed_out = True
                break
        pool.terminate()

    counts, sigs, kinds = {}, set(), {}
    for r in results:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        if r["status"] in ("held", "violated") and r["counts"]:
            sigs |= {(r["kind"], s) for s in (r["sigs"] or [repr(r["info"])])}
        kinds.setdefault(r["kind"], {}).setdefault(r["status"], 0)
        kinds[r["kind"]][r["status"]] += 1
    known = known_findings()
    bad, listed = [], {}
    for r in results:
        if r["status"] == "violated":
            if r["key"] is not None and (prop, r["key"]) in known:
                listed.setdefault(r["key"], []).append(r)
            else:
                bad.append(r)
    bad.sort(key=lambda r: (r["kind"], r["index"]))
    done = [r for r in results if r["status"] in ("held", "violated")]
    judged = sum(counts.values())

    viol = []
    for r in bad[:int(os.environ.get("VERIF_SHOW", "5"))]:
        path = os.path.join(EVID, f"{prop}-{r['kind']}-{r['index']}.replay.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump(
                {
                    "property": prop, "kind": r["kind"], "index": r["index"], "seed": seed,
                    "tier": tier, "what": r["what"], "detail": r["detail"], "case": r["info"],
                    "repro": f"./check replay {path}",
                },
                f, indent=1, default=str,
            )
        viol.append({"what": r["what"], "replay": path})
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {r['kind']}#{r['index']}: {r['what']}")
    for k, rs in sorted(listed.items()):
        print(f"KNOWN-FINDING: property={prop} {known[(prop, k)]} ({len(rs)} cases)")

    samples, seen = [], set()
    for r in sorted(done, key=lambda r: r["index"]):
        if r["kind"] not in seen and r["info"]:
            seen.add(r["kind"])
            samples.append({"kind": r["kind"], "index": r["index"], **r["info"]})
    incomplete = timed_out or len(results) < total or any(
        v.get("hang", 0) > max(2, 0.05 * sum(v.values())) for v in kinds.values())
    blind = [k for k, v in kinds.items() if not (v.get("held") or v.get("violated"))]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(done),
            "distinct_nontrivial": len(sigs),
            "rule": rule,
            "samples": samples[:12] or [{"note": "no case completed"}],
            "observations": counts,
            "case_kinds": kinds,
            "planned_cases": total,
            "known_findings_observed": {k: len(v) for k, v in listed.items()},
        },
        "assumptions": [
            "64 bit default floating point type on the CPU",
            "held means: held on the executions counted here",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": viol,
    }
    with open(os.path.join(EVID, f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1, default=str)
    print(
        f"{prop} {tier} seed={seed}: {len(done)} cases, {len(sigs)} distinct, "
        f"{judged} observations, {len(bad)} violations, {evidence['wall_s']} s"
    )
    if bad:
        return 1
    if incomplete or blind or judged == 0:
        print(f"INCONCLUSIVE: incomplete={incomplete} unreached={blind} observations={judged}")
        return 2
    return 0
