"""Case registry, recorder, parallel runner, verdicts, evidence.

A *case* is a function ``f(rec, rng)`` that drives real skada code once with a workload drawn
from ``rng`` and reports what its monitors saw through ``rec``.  Verdicts are three-valued:

* violated     -> exit 1 and a ``VIOLATION property=<id> replay=<path>`` line
* held         -> exit 0
* inconclusive -> exit 2 (a watchdog fired, or a deciding monitor never observed anything)
"""
import contextlib
import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings
import zlib

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = 240
QUICK_LIMIT = 780
THOROUGH_LIMIT = 3 * 3600


class CaseAbort(Exception):
    """Raised after a violation that makes the rest of the case meaningless."""


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """The drawn workload is outside the property's domain (counted, never a verdict)."""


def short(v, depth=0):
    """Compact JSON-able description of a value, for witnesses and samples."""
    try:
        import torch
        if isinstance(v, torch.Tensor):
            v = v.detach().cpu().numpy()
    except Exception:
        pass
    if isinstance(v, np.ndarray):
        s = np.array2string(v.ravel()[:12], precision=6, threshold=20)
        return f"ndarray{v.shape}:{v.dtype}:{s}"
    if isinstance(v, (np.floating, np.integer, np.bool_)):
        return v.item()
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v if not isinstance(v, str) or len(v) < 400 else v[:400]
    if isinstance(v, dict) and depth < 3:
        return {str(k): short(x, depth + 1) for k, x in list(v.items())[:20]}
    if isinstance(v, (list, tuple, set)) and depth < 3:
        return [short(x, depth + 1) for x in list(v)[:20]]
    return repr(v)[:300]


def digest(*things):
    h = hashlib.blake2b(digest_size=8)
    for t in things:
        _feed(h, t)
    return h.hexdigest()


def _feed(h, t):
    if type(t).__module__.startswith("torch"):
        try:
            t = t.detach().cpu().numpy()
        except Exception:
            t = repr(t)
    if isinstance(t, np.ndarray):
        h.update(str((t.shape, str(t.dtype))).encode())
        h.update(repr(t.tolist()).encode() if t.dtype == object else np.ascontiguousarray(t).tobytes())
    elif isinstance(t, dict):
        for k in sorted(t, key=str):
            h.update(str(k).encode())
            _feed(h, t[k])
    elif isinstance(t, (list, tuple)):
        h.update(b"[")
        for x in t:
            _feed(h, x)
        h.update(b"]")
    else:
        h.update(repr(t).encode())


class Rec:
    """What the monitors of one case observed."""

    def __init__(self):
        self.events = {}
        self.digests = {}
        self.samples = []
        self.violations = []
        self.checks = 0
        self.ctx = []

    # -- coverage ---------------------------------------------------------
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def seen(self, tag, *things):
        self.digests.setdefault(tag, set()).add(digest(*things))

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append({k: short(v) for k, v in kw.items()})

    # -- verdicts ----------------------------------------------------------
    @contextlib.contextmanager
    def context(self, **kw):
        self.ctx.append(kw)
        try:
            yield
        finally:
            self.ctx.pop()

    def violate(self, key, msg, **wit):
        w = {}
        for c in self.ctx:
            w.update(c)
        w.update(wit)
        if len(self.violations) < 25:
            self.violations.append({"key": key, "msg": str(msg)[:600],
                                    "witness": {k: short(v) for k, v in w.items()}})

    def expect(self, cond, key, msg="", **wit):
        self.checks += 1
        if not bool(cond):
            self.violate(key, msg or key, **wit)
            return False
        return True

    def must(self, cond, key, msg="", **wit):
        """Like expect, but the case cannot go on when it fails."""
        if not self.expect(cond, key, msg, **wit):
            raise CaseAbort()

    def equal(self, a, b, key, msg="", **wit):
        """Exact equality of arrays (NaN == NaN), shapes included."""
        a, b = as_np(a), as_np(b)
        ok = a.shape == b.shape and _array_equal(a, b)
        return self.expect(ok, key, msg or "values differ", got=a, want=b, **wit)

    def close(self, a, b, key, msg="", rtol=1e-7, atol=1e-9, **wit):
        a, b = as_np(a), as_np(b)
        if a.shape != b.shape:
            return self.expect(False, key, msg + f" [shape {a.shape} vs {b.shape}]", got=a, want=b, **wit)
        try:
            ok = bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
        except TypeError:
            ok = _array_equal(a, b)
        if not ok:
            try:
                wit["max_abs_diff"] = float(np.nanmax(np.abs(a.astype(float) - b.astype(float))))
            except Exception:
                pass
        return self.expect(ok, key, msg or "values differ", got=a, want=b, **wit)

    @contextlib.contextmanager
    def call(self, key, **wit):
        """A call into skada that is legitimate: raising is a violation."""
        try:
            yield
        except (CaseAbort, CaseTimeout, Skip):
            raise
        except Exception as e:
            tb = traceback.format_exc(limit=-4)
            self.violate(f"raises:{key}", f"{type(e).__name__}: {e}", traceback=tb[-900:], **wit)
            raise CaseAbort()

    def rejects(self, key, fn, exc=Exception, msg="", **wit):
        """A call that must be refused with an explicit exception."""
        self.checks += 1
        try:
            out = fn()
        except (CaseAbort, CaseTimeout, Skip):
            raise
        except exc:
            self.event("rejections")
            return True
        except Exception as e:
            self.violate(key, f"{msg}: raised {type(e).__name__}: {e} instead of {exc}", **wit)
            return False
        self.violate(key, f"{msg}: accepted instead of refused", out=out, **wit)
        return False


def as_np(a):
    try:
        import torch
        if isinstance(a, torch.Tensor):
            return a.detach().cpu().numpy()
    except ImportError:
        pass
    return np.asarray(a)


def _array_equal(a, b):
    if a.dtype.kind in "fc" or b.dtype.kind in "fc":
        try:
            return bool(np.array_equal(a, b, equal_nan=True))
        except TypeError:
            pass
    return bool(np.array_equal(a, b))


# --------------------------------------------------------------------------
class Case:
    def __init__(self, prop, name, fn, quick, thorough, requires):
        self.prop, self.name, self.fn = prop, name, fn
        self.quick, self.thorough, self.requires = quick, thorough, requires


REGISTRY = {}


def case(prop, quick=10, thorough=None, requires=(), name=None):
    """Register a case. ``requires``: events that must be observed at least once over the run."""
    def deco(fn):
        n = name or fn.__name__
        cases = REGISTRY.setdefault(prop, {})
        assert n not in cases, n
        cases[n] = Case(prop, n, fn, quick, thorough if thorough is not None else quick * 12, tuple(requires))
        return fn
    return deco


def case_rng(seed, prop, name, idx):
    return np.random.default_rng([int(seed) & 0x7FFFFFFF, zlib.crc32(f"{prop}:{name}".encode()), int(idx)])


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(prop, name, idx, seed, timeout=CASE_TIMEOUT):
    c = REGISTRY[prop][name]
    rec = Rec()
    rng = case_rng(seed, prop, name, idx)
    s = int(rng.integers(0, 2**31 - 1))
    np.random.seed(s)
    random.seed(s)
    if "torch" in sys.modules:
        sys.modules["torch"].manual_seed(s)
    status = "ok"
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(timeout))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            rec.idx = idx
            c.fn(rec, rng)
    except CaseAbort:
        status = "aborted"
    except Skip:
        status = "skipped"
    except CaseTimeout:
        status = "timeout"
    except Exception as e:
        tb = traceback.format_exc()
        # An exception outside rec.call(): either skada returned something malformed or the
        # workload met an unexpected error.  On the pinned tree this never happens.
        rec.violate(f"unexpected:{name}", f"{type(e).__name__}: {e}", traceback=tb[-1500:])
        status = "error"
    finally:
        signal.alarm(0)
    return {"name": name, "idx": idx, "status": status, "wall": time.time() - t0, "events": rec.events,
            "digests": {k: list(v) for k, v in rec.digests.items()}, "samples": rec.samples,
            "violations": rec.violations, "checks": rec.checks}


def _worker(args):
    return run_one(*args)


def _init_worker(config):
    # scikit-learn's configuration is per thread and replacement workers are forked from a helper thread
    import sklearn
    sklearn.set_config(**config)
    os.environ["OMP_NUM_THREADS"] = "1"
    # the recorder reports; whatever the library prints is not part of the verdict
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("RTM_STDERR"):
        os.dup2(devnull, 2)


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def run_property(prop, tier, seed, only=None, jobs=None, limit=None, scale=1.0):
    cases = REGISTRY[prop]
    tasks = []
    for c in cases.values():
        if only and c.name not in only:
            continue
        n = c.quick if tier == "quick" else c.thorough
        n = max(1, int(round(n * scale)))
        tasks += [(prop, c.name, i, seed) for i in range(n)]
    # interleave the cases so that the pool stays balanced
    tasks.sort(key=lambda t: (t[2], t[1]))
    limit = limit or (QUICK_LIMIT if tier == "quick" else THOROUGH_LIMIT)
    jobs = jobs or min(8, os.cpu_count() or 1)
    t0 = time.time()
    results, inconclusive = [], []
    ctx = mp.get_context("fork")
    import sklearn
    pool = ctx.Pool(jobs, initializer=_init_worker, initargs=(sklearn.get_config(),), maxtasksperchild=200)
    try:
        it = pool.imap_unordered(_worker, tasks, chunksize=1)
        for _ in range(len(tasks)):
            left = limit - (time.time() - t0)
            if left <= 0:
                inconclusive.append("overall time limit reached")
                break
            try:
                results.append(it.next(timeout=left))
            except mp.TimeoutError:
                inconclusive.append("overall time limit reached")
                break
    finally:
        pool.terminate()
        pool.join()
    return tasks, results, inconclusive, time.time() - t0


def finish(prop, tier, seed, tasks, results, inconclusive, wall, partial=False):
    cases = REGISTRY[prop]
    known = {(k["property"], k["key"]): k for k in load_known()}
    events, digests, samples, status = {}, {}, [], {}
    viol, hit = [], {}
    checks = 0
    per_case = {}
    for r in sorted(results, key=lambda r: (r["name"], r["idx"])):
        status[r["status"]] = status.get(r["status"], 0) + 1
        checks += r["checks"]
        pc = per_case.setdefault(r["name"], {"runs": 0, "checks": 0, "wall_s": 0.0, "skipped": 0})
        pc["runs"] += 1
        pc["checks"] += r["checks"]
        pc["wall_s"] = round(pc["wall_s"] + r["wall"], 2)
        pc["skipped"] += r["status"] == "skipped"
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in r["digests"].items():
            digests.setdefault(k, set()).update(v)
        if r["samples"] and not any(s["case"] == r["name"] for s in samples):
            samples.append({"case": r["name"], "idx": r["idx"], "observed": r["samples"][0]})
        if r["status"] == "timeout":
            inconclusive.append(f"watchdog fired in {r['name']}#{r['idx']}")
        for v in r["violations"]:
            k = known.get((prop, v["key"]))
            if k is not None:
                hit.setdefault(v["key"], []).append((r, v))
            else:
                viol.append((r, v))
    for c in cases.values():
        if partial:
            continue
        for ev in c.requires:
            if not events.get(ev):
                inconclusive.append(f"{c.name}: no '{ev}' event observed")
    for key, lst in sorted(hit.items()):
        print(f"KNOWN-FINDING: property={prop} {known[(prop, key)]['what']} [{key}; seen {len(lst)}x]")
    replay = None
    by_key = {}
    for r, v in viol:
        by_key.setdefault(v["key"], []).append((r, v))
    rdir = os.path.join(ROOT, "replay")
    for n, (key, lst) in enumerate(sorted(by_key.items())):
        os.makedirs(rdir, exist_ok=True)
        r, v = lst[0]
        path = os.path.join(rdir, f"{prop}-{n}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "case": r["name"], "idx": r["idx"], "seed": seed, "tier": tier,
                       "key": key, "violation": v, "occurrences": len(lst)}, f, indent=1)
        if n < 10:
            print(f"violation [{key}] x{len(lst)} in {r['name']}#{r['idx']}: {v['msg'][:300]}")
            print(f"VIOLATION property={prop} replay={path}")
    distinct = sum(len(s) for s in digests.values())
    evidence = {
        "property": prop, "tier": tier, "seed": int(seed), "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": distinct,
            "rule": "each evaluation runs one registered case with its own seeded workload on the real code; "
                    "distinct_nontrivial counts different contents (hash of the observed inputs/outputs) among the "
                    "executions whose monitor reached its deciding comparison",
            "monitor_checks": checks, "events": dict(sorted(events.items())),
            "distinct_by_kind": {k: len(v) for k, v in sorted(digests.items())},
            "cases": per_case, "case_status": status, "samples": samples[:12],
            "known_findings_seen": {k: len(v) for k, v in hit.items()},
            "inconclusive": inconclusive[:10],
        },
        "assumptions": ["numpy, scipy, scikit-learn, POT and torch behave as documented",
                        "held on the executions counted here, not beyond them"],
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not partial:
        with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
    print(f"{prop} {tier} seed={seed}: {len(results)}/{len(tasks)} executions, {checks} monitor checks, "
          f"{distinct} distinct observations, {len(viol)} violations, {wall:.1f}s {status}")
    if viol:
        return 1
    if inconclusive:
        for i in inconclusive[:10]:
            print("INCONCLUSIVE:", i)
        return 2
    return 0
