#!/usr/bin/env python3
"""Refreshes the generated parts of DESIGN.md (per-property table from the check modules and meta.py; table of planted bugs from tools/detected.json)."""
import glob, importlib.util, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "tools"), os.path.join(HERE, "lib")]
import meta
out = []
for pid, p in sorted(meta.P.items()):
    if pid in getattr(meta, "NOT_APPLICABLE", {}):
        out.append(f"### {pid} {p['title']}\n\nNot decided: {meta.NOT_APPLICABLE[pid]}\n")
        continue
    f = glob.glob(os.path.join(HERE, "checks", pid.lower() + "_*.py"))[0]
    spec = importlib.util.spec_from_file_location("m" + pid, f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    out.append(f"### {pid} {p['title']}\n\n* how: {p['technique']}\n* workload: {m.RULE}\n* monitors (least number of events for a verdict, quick): " +
               ", ".join(f"{k} ({v})" for k, v in m.FLOOR.items()) + f"\n* assumptions: {'; '.join(m.ASSUMPTIONS) or 'none'}\n* bounds and oracle: {p['note']}\n")
bugs = []
det = json.load(open(os.path.join(HERE, "tools", "detected.json"))) if os.path.exists(os.path.join(HERE, "tools", "detected.json")) else {}
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
    b = os.path.basename(d)
    mj = json.load(open(os.path.join(d, "meta.json")))
    bugs.append(f"| {b} | {mj['property']} | {mj['what_it_breaks']} | {mj['needs']} | {', '.join(det.get(b, [])) or 'missed'} |")
path = os.path.join(HERE, "DESIGN.md")
s = open(path).read()
s = re.sub(r"## Per property\n.*?(?=\n## )", lambda _: "## Per property\n\n" + "\n".join(out), s, flags=re.S)
t = "\n| bug | property | breaks | needs | caught by (quick) |\n| --- | --- | --- | --- | --- |\n" + "\n".join(bugs) + "\n"
s = re.sub(r"(## Planted bugs\n.*?--check`[^\n]*\n).*?(?=\n## |\Z)", lambda m: m.group(1) + t, s, flags=re.S)
open(path, "w").write(s)
