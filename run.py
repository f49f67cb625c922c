#!/usr/bin/env python3
"""python run.py CXX [--tier quick|thorough] [--replay FILE]   (run in /verif)"""
import argparse
import collections
import glob
import importlib.util
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))


def load(pid):
    fs = glob.glob(os.path.join(HERE, "checks", pid.lower() + "_*.py"))
    assert len(fs) == 1, (pid, fs)
    spec = importlib.util.spec_from_file_location("check_" + pid, fs[0])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    assert m.ID == pid
    return m


def env_for(x64):
    e = dict(os.environ)
    repo = e.get("VERIF_REPO", "/repo")
    e.update(JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             JAX_ENABLE_X64="1" if x64 else "0",
             PYTHONPATH=repo + os.pathsep + os.path.join(HERE, "lib"),
             XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TF_CPP_MIN_LOG_LEVEL="3")
    return e


def worker(a):
    import vlib
    mod = load(a.id)
    job = json.load(open(a.job))
    import hydraxmpm
    want = os.path.join(os.path.abspath(vlib.REPO), "hydraxmpm")
    assert os.path.abspath(os.path.dirname(hydraxmpm.__file__)) == want, hydraxmpm.__file__
    res = vlib.run_cases(mod, job["cases"], job["seed"], job["tier"], job["deadline"])
    json.dump(res, open(a.out, "w"))


def known(pid):
    """Entries 'KNOWN property=<id> mech=<mechanism> <what fails>' of the committed findings file."""
    out = {}
    for line in open(os.path.join(HERE, "known_findings.txt")):
        w = line.split(maxsplit=3)
        if len(w) == 4 and w[0] == "KNOWN" and w[1] == "property=" + pid:
            out[w[2][len("mech="):]] = w[3].strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--job")
    ap.add_argument("--out")
    ap.add_argument("-j", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    a = ap.parse_args()
    if a.worker:
        return worker(a)

    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if a.tier == "thorough" else "quick"
    import vlib
    mod = load(a.id)
    if a.replay:
        rp = json.load(open(a.replay))
        cases, seed, tier = [rp["case"]], rp["seed"], rp["tier"]
    else:
        cases = mod.gen_cases(vlib.sub_rng(seed, a.id, "cases"), tier)
    for i, c in enumerate(cases):
        c.setdefault("n", i)
        c.setdefault("x64", True)

    budget = 700 if tier == "quick" else 3000
    deadline = time.time() + budget
    tmp = tempfile.mkdtemp(prefix="verif_")
    procs = []
    groups = collections.defaultdict(list)
    for c in cases:
        groups[bool(c["x64"])].append(c)
    total = len(cases)
    jobs = []
    for x64, cs in groups.items():
        k = max(1, min(len(cs), round(a.j * len(cs) / total)))
        for s in range(k):
            jobs.append((x64, cs[s::k]))
    results, crashed = [], []
    queue = list(enumerate(jobs))
    running = []
    while queue or running:
        while queue and len(running) < a.j:
            k, (x64, cs) = queue.pop(0)
            jf, of = os.path.join(tmp, f"job{k}.json"), os.path.join(tmp, f"out{k}.json")
            json.dump(dict(cases=cs, seed=seed, tier=tier, deadline=deadline), open(jf, "w"))
            lf = open(os.path.join(tmp, f"log{k}.txt"), "w")
            p = subprocess.Popen([sys.executable, "-W", "ignore", os.path.abspath(__file__), a.id, "--worker", "--job", jf, "--out", of],
                                 env=env_for(x64), stdout=lf, stderr=subprocess.STDOUT, cwd=tmp)
            running.append((p, of, lf.name, k))
        time.sleep(0.05)
        for r in list(running):
            if r[0].poll() is not None or time.time() > deadline + 120:
                if r[0].poll() is None:
                    r[0].kill()
                    r[0].wait()
                running.remove(r)
                try:
                    results.append(json.load(open(r[1])))
                except Exception:
                    crashed.append((r[0].returncode, open(r[2]).read()[-3000:]))

    obs, sigs, viol, samples, errors, worst = collections.Counter(), set(), {}, [], [], {}
    n_run = n_skip = 0
    for r in results:
        obs.update(r["obs"])
        sigs |= set(r["sigs"])
        n_run += r["n_run"]
        n_skip += r["n_skipped"]
        samples += r["samples"]
        errors += r["errors"]
        for m, v in r["viol"].items():
            viol.setdefault(m, []).extend(v)
        for m, v in r["worst"].items():
            worst[m] = max(v, worst.get(m, 0))
    subprocess.run(["rm", "-rf", tmp])

    kn = known(a.id)
    new = {m: v for m, v in viol.items() if m not in kn}
    # importing the package, or a whole worker, fell over: decided only if the code under test is at fault
    for rc, log in crashed:
        if os.path.abspath(vlib.REPO) + "/" in log and "Traceback" in log and "AssertionError" not in log.splitlines()[-1:]:
            last = log.strip().splitlines()[-1]
            new.setdefault("crash", []).append(dict(mechanism="crash", detail=last, case=None, data=dict(log=log)))

    if not a.replay:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        samples = sorted(samples, key=lambda s: s["case"]["n"])[:6]
        ev = dict(property=a.id, tier=tier, seed=seed, level="exploration",
                  coverage=dict(evaluations=n_run, distinct_nontrivial=len(sigs), rule=mod.RULE, samples=samples,
                                monitor_events=dict(sorted(obs.items())), cases_skipped_by_deadline=n_skip,
                                worst_error_over_tolerance={k: round(v, 6) for k, v in sorted(worst.items())},
                                signatures=sorted(sigs)[:40]),
                  assumptions=mod.ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(new))
        json.dump(ev, open(os.path.join(HERE, "evidence", a.id + ".json"), "w"), indent=1)

    for m in kn:
        if m in viol:
            print(f"KNOWN-FINDING: property={a.id} {kn[m]}")
        elif not a.replay and m != "-":
            print(f"note: known finding {m} was not observed in this run")

    if new:
        rd = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for k, (m, v) in enumerate(sorted(new.items())):
            path = os.path.join(rd, f"{a.id}-{k}.json") if not a.replay else a.replay
            if not a.replay:
                json.dump(dict(property=a.id, seed=seed, tier=tier, **v[0], others=len(v) - 1), open(path, "w"), indent=1, default=str)
            print(f"VIOLATION property={a.id} replay={path}")
            print(f"  [{m}] {v[0]['detail'][:700]}")
            print(f"  case {json.dumps(v[0]['case'])[:500]}")
        return 1

    bad = []
    if errors:
        bad.append(f"{len(errors)} harness error(s):\n{errors[0]}")
    if crashed:
        bad.append(f"{len(crashed)} worker(s) died: rc={crashed[0][0]}\n{crashed[0][1]}")
    if not a.replay:
        for m, lo in getattr(mod, "FLOOR", {}).items():
            if obs.get(m, 0) < lo:
                bad.append(f"inconclusive: monitor {m!r} saw {obs.get(m, 0)} events, needs {lo}")
    if bad:
        print(f"{a.id}: no verdict\n" + "\n".join(bad))
        return 2
    print(f"{a.id}: held on {n_run} cases ({len(sigs)} distinct non-trivial), {sum(obs.values())} monitor events, "
          f"{n_skip} skipped, {time.time() - t0:.1f}s, seed {seed}, {tier}")
    w = sorted(worst.items(), key=lambda kv: -kv[1])[:4]
    print("  closest to tolerance: " + ", ".join(f"{k}={v:.3g}" for k, v in w))
    return 0


if __name__ == "__main__":
    sys.exit(main() or 0)
