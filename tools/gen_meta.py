#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/meta.py (only properties that have a check are claimed)."""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import meta

have = {os.path.basename(f)[:3].upper() for f in glob.glob(os.path.join(HERE, "checks", "c*_*.py"))}
na = getattr(meta, "NOT_APPLICABLE", {})
lines, checks = [], []
for pid, p in sorted(meta.P.items()):
    assert len(p["title"]) <= 80, (pid, len(p["title"]))
    assert pid in have or pid in na, pid
    lines.append(json.dumps(dict(
        id=pid, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
        anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"] or ["public solver/law/state API: states returned by each call"], hook_needed=None))))
    if pid in na:
        continue
    checks.append(dict(property=pid, quick_cmd=f"./check {pid} quick", thorough_cmd=f"./check {pid} thorough", evidence_file=f"evidence/{pid}.json",
                       technique="runtime monitoring: " + p["technique"], level="exploration", level_note=p["note"]))
assert have <= set(meta.P), have - set(meta.P)
open(os.path.join(HERE, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import jax, equinox, numpy, scipy'", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(na.items())],
         notes="No hooks: every monitor observes the public API of /repo from outside (see DESIGN.md).")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(lines), "properties,", len(checks), "checks")
