#!/usr/bin/env python3
"""Prints the 'fixed:' lines of known_findings.txt from the fix commits in /repo (property by keyword)."""
import subprocess
PROP = [("one pressure unit", "C12"), ("box-like obstacles", "C09"), ("normals of a particle cloud", "C09"), ("node positions", "C21"), ("lattice particle generation", "C23"), ("VTK export", "C25"), ("SDF export", "C25"), ("Rerun", "C25"), ("exported surface", "C25"), ("robust reciprocal", "C26"), ("some of the SDF objects", "C18"), ("created from material points crashed", "C12"), ("gradients at rest", "C20"), ("rigid points", "C18"), ("reloaded", "C17"), ("exporting", "C25"), ("strain helpers", "C26"), ("generation", "C23"), ("single material point met", "C08"), ("single material point lost", "C06"),
        ("last row", "C27"), ("linear shape", "C04"), ("gathering", "C04"), ("SDF normals", "C09"), ("hollow", "C09"), ("Cam-Clay states created", "C12"), ("OCR", "C12"),
        ("tensile below", "C12"), ("collapse to 1 Pa", "C12"), ("return mapping", "C11"), ("critical time step used", "C22"), ("mu(I)", "C13"), ("Newtonian fluid state", "C13"),
        ("Newtonian fluid pressure", "C13"), ("objective", "C15"), ("transposed", "C05"), ("default particle volume", "C27"), ("shear reset", "C06"), ("classic APIC", "C02"),
        ("dynamic alpha", "C02"), ("forces of earlier", "C02"), ("affine state", "C18"), ("coupling order", "C18"), ("SDF collider", "C08"), ("gravity applied", "C03")]
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "a3ee273..HEAD"], capture_output=True, text=True).stdout
for ln in out.splitlines():
    h, m = ln.split(" ", 1)
    p = [b for a, b in PROP if a in m]
    print(f"fixed: property={p[0] if p else '?'} {h} {m[5:]}")
