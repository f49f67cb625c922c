"""Runtime-monitoring harness shared by all checks.

A check module (checks/cXX_*.py) provides

    ID, RULE, ASSUMPTIONS
    gen_cases(rng, tier) -> list of JSON-able dicts   (the workload)
    run_case(ck, case)  -> str | None                 (drives the real code, feeds the monitors;
                                                       returns a signature if the case was non-trivial)
    FLOOR = {monitor: minimum number of events}       (fewer: inconclusive, never "held")

The runner shards the cases over worker processes, merges what the monitors
observed, writes the evidence file and gives the verdict.
"""
import collections
import json
import os
import sys
import time
import traceback
import zlib

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    pass


def sub_rng(seed, *names):
    return np.random.default_rng([int(seed) & 0xFFFFFFFF] + [zlib.crc32(str(n).encode()) for n in names])


def f(x):
    """Array -> float64 numpy."""
    return np.asarray(x, dtype=np.float64)


def eps_of(*arrs):
    """Unit round-off of the least precise float array given (what the code actually computed in)."""
    e = 2.3e-16
    for a in arrs:
        dt = getattr(a, "dtype", None)
        if dt is not None and np.issubdtype(np.dtype(dt), np.floating):
            e = max(e, float(np.finfo(np.dtype(dt)).eps))
    return e


class Ck:
    def __init__(self, pid, seed, tier):
        self.pid, self.seed, self.tier = pid, seed, tier
        self.obs = collections.Counter()
        self.viol = {}
        self.case = None
        self.worst = {}

    def rng(self, *names):
        return sub_rng(self.seed, self.pid, *names)

    def saw(self, name, n=1):
        self.obs[name] += int(n)

    def fail(self, mech, detail, **data):
        v = self.viol.setdefault(mech, [])
        if len(v) < 3:
            v.append({"mechanism": mech, "detail": str(detail)[:2000], "case": self.case, "data": _js(data)})

    def true(self, name, cond, detail="", mech=None, **data):
        self.obs[name] += 1
        if not bool(cond):
            self.fail(mech or name, detail, **data)
            return False
        return True

    def all(self, name, mask, detail="", mech=None, **data):
        mask = np.asarray(mask)
        self.obs[name] += int(mask.size)
        if mask.size and not mask.all():
            i = np.argwhere(~mask)[0].tolist()
            self.fail(mech or name, f"{detail} first failing index {i}, {int((~mask).sum())}/{mask.size} fail", **data)
            return False
        return True

    def close(self, name, got, want, tol, detail="", mech=None, **data):
        """|got - want| <= tol (tol: scalar or array, absolute). NaN anywhere fails."""
        g, w = np.asarray(got, dtype=np.float64), np.asarray(want, dtype=np.float64)
        try:
            bad = np.broadcast_shapes(g.shape, w.shape) != g.shape and g.ndim and w.ndim
        except ValueError:
            bad = True
        if bad:
            self.obs[name] += 1
            self.fail(mech or name, f"{detail} shape {g.shape} != expected {w.shape}", **data)
            return False
        err = np.abs(g - w)
        ok = err <= tol
        self.obs[name] += int(max(err.size, 1))
        t = np.max(np.where(np.broadcast_to(np.asarray(tol, dtype=float), err.shape) > 0, err / np.maximum(tol, 1e-300), np.where(err > 0, np.inf, 0.0))) if err.size else 0.0
        if np.isfinite(t):
            self.worst[name] = max(self.worst.get(name, 0.0), float(t))
        if not np.all(ok):
            i = np.argwhere(~np.asarray(ok))
            i = i[0].tolist() if i.size else []
            gi = g[tuple(i)] if g.ndim else g
            wi = np.broadcast_to(w, err.shape)[tuple(i)] if err.ndim else w
            ti = np.broadcast_to(np.asarray(tol, dtype=float), err.shape)[tuple(i)] if err.ndim else tol
            self.fail(mech or name, f"{detail} at {i}: got {gi!r} expected {wi!r} tol {ti!r} ({int((~np.asarray(ok)).sum())}/{err.size} fail)", **data)
            return False
        return True

    def finite(self, name, *arrs, detail=""):
        ok = True
        for a in arrs:
            if a is None:
                continue
            a = np.asarray(a)
            if np.issubdtype(a.dtype, np.number):
                ok &= self.all(name, np.isfinite(a), detail or "non-finite value")
        return ok


def _js(x):
    if isinstance(x, dict):
        return {str(k): _js(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_js(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    try:
        a = np.asarray(x)
        if a.size > 64:
            return {"shape": list(a.shape), "head": a.ravel()[:16].tolist()}
        return a.tolist()
    except Exception:
        return repr(x)[:200]


def in_repo(tb):
    """Deepest frame of the traceback inside the code under test, if any."""
    hit = None
    for fr in traceback.extract_tb(tb):
        p = os.path.abspath(fr.filename)
        if p.startswith(os.path.abspath(REPO) + os.sep):
            hit = fr
    return hit


def run_cases(mod, cases, seed, tier, deadline):
    ck = Ck(mod.ID, seed, tier)
    sigs, n_run, n_skipped, errors = set(), 0, 0, []
    samples = []
    times = []
    for case in cases:
        if time.time() > deadline:
            n_skipped += 1
            continue
        ck.case = case
        t0 = time.time()
        try:
            sig = mod.run_case(ck, case)
            n_run += 1
            if sig:
                sigs.add(str(sig))
            if len(samples) < 2:
                samples.append({"case": case, "signature": sig})
        except Violation as e:
            n_run += 1
        except Exception as e:
            fr = in_repo(e.__traceback__)
            if fr is not None or getattr(e, "code_under_test", False):
                n_run += 1
                where = f"{os.path.relpath(fr.filename, REPO)}:{fr.name}" if fr else "?"
                ck.fail(f"exception:{type(e).__name__}@{where}",
                        f"the code under test raised on a valid input: {type(e).__name__}: {str(e)[:600]}",
                        traceback="".join(traceback.format_exception(e))[-3000:])
            else:
                errors.append("".join(traceback.format_exception(e))[-4000:])
        times.append(time.time() - t0)
    return dict(obs=dict(ck.obs), viol=ck.viol, sigs=sorted(sigs), n_run=n_run, n_skipped=n_skipped,
                errors=errors, samples=samples, worst=ck.worst, t=sum(times))
