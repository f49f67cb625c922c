#!/usr/bin/env python3
"""tools/plant.py [ID ...] [--check] [--jobs N]: (re)creates seeded/<ID>/ from tools/bugs/<ID>.py and confirms in a scratch copy of the repository that the
change builds, passes the stable tests, and that its demonstration tells the two trees apart; --check also runs the property's quick check on it.
tools/bugs/<ID>.py defines PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (python text)."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
REPO = "/repo"
SH = '#!/bin/bash\n# run with cwd = the repository\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu JAX_ENABLE_X64=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, timeout=900, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONPATH=cwd, **env)
    p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def tests(d):
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    x = os.path.join(d, "junit.xml")
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml", x,
        "tests/test_linearelastic_mat.py", "tests/test_material_points.py", "tests/test_newtonfluid_mat.py"], d)
    ok = {f"{t.get('classname')}::{t.get('name')}" for t in ET.parse(x).iter("testcase") if not list(t)}
    os.remove(x)
    return sorted(stable - ok)


def one(bid, check):
    ns = {}
    exec(open(os.path.join(HERE, "tools", "bugs", bid + ".py")).read(), ns)
    base = tempfile.mkdtemp(prefix="plant_")
    msgs = []
    try:
        d = os.path.join(base, "r")
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns("__pycache__"))
        for f, old, new in ns["EDITS"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return bid, [f"EDIT matches {s.count(old)} times in {f}: {old[:60]!r}"]
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh(["git", "diff"], d)
        # every removed line must come from the original tree
        for f in {e[0] for e in ns["EDITS"]}:
            _, bl = sh(["git", "blame", "-s", "HEAD", "--", f], d)
            bl = bl.splitlines()
            _, hd = sh(["git", "diff", "-U0", "--", f], d)
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", hd, re.M):
                a, n = int(m[1]), int(m[2] if m[2] is not None else 1)
                for k in range(a, a + n):
                    if "a3ee273" not in bl[k - 1][:9]:
                        msgs.append(f"line {f}:{k} is not original: {bl[k-1][:80]}")
        rc, out = sh([PY, "-c", "import hydraxmpm,sys;print(hydraxmpm.__file__)"], d)
        if rc or d not in out:
            msgs.append("does not import: " + out[-300:])
        miss = tests(d)
        if miss:
            msgs.append(f"stable tests fail: {miss}")
        o = os.path.join(HERE, "seeded", bid)
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        open(os.path.join(o, "patch.diff"), "w").write(diff)
        open(os.path.join(o, "demo.py"), "w").write(ns["DEMO"].lstrip())
        open(os.path.join(o, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(o, "demo.sh"), 0o755)
        json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(os.path.join(o, "meta.json"), "w"), indent=1)
        e = os.path.join(base, "demo")
        shutil.copytree(o, e)
        rc1, out1 = sh(["bash", os.path.join(e, "demo.sh")], d, 300)
        rc0, out0 = sh(["bash", os.path.join(e, "demo.sh")], REPO, 300)
        if rc0 or not rc1:
            msgs.append(f"demo: unpatched {rc0}, patched {rc1}\n  unpatched: {out0[-600:]}\n  patched: {out1[-600:]}")
        if not msgs:
            msgs.append("ok: " + (out1.strip().splitlines() or ["?"])[-1][:100])
        if check:
            for pid in (check if isinstance(check, list) else [ns["PROPERTY"]]):
                p = subprocess.run([os.path.join(HERE, "check"), pid, "quick"], cwd=HERE, capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO=d, VERIF_JOBS="4", VERIF_NO_EVIDENCE="1"))
                v = [ln for ln in p.stdout.splitlines() if ln.startswith("VIOLATION")]
                msgs.append(f"check {pid}: exit {p.returncode} " + (p.stdout.strip().splitlines() or [""])[0][:200] + (" [" + "; ".join(v)[:120] + "]" if v else ""))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return bid, msgs


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    check = "--check" in sys.argv
    ids = args or sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "tools", "bugs")) if f.endswith(".py"))
    df = os.path.join(HERE, "tools", "detected.json")
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for bid, msgs in ex.map(lambda b: one(b, check), ids):
            print(bid, *msgs, sep="\n   ", flush=True)
            if check:
                det = json.load(open(df)) if os.path.exists(df) else {}
                det[bid] = sorted({m.split()[1].rstrip(":") for m in msgs if m.startswith("check ") and "exit 1" in m and "VIOLATION" in m})
                json.dump(det, open(df, "w"), indent=1, sort_keys=True)
