#!/usr/bin/env python3
"""bug.py: helper to write planted bugs. def mk(id, property, needs, what, edits, main)"""
import json, os, shutil, subprocess, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mk(id, prop, needs, what, edits, main=None, files=None):
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory(prefix="vbug") as t:
        repo = os.path.join(t, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
        for path, a, b, *cnt in edits:
            p = os.path.join(repo, path)
            s = open(p).read()
            want = cnt[0] if cnt else 1
            assert s.count(a) == want, (id, path, a, s.count(a))
            open(p, "w").write(s.replace(a, b))
        diff = subprocess.check_output(["git", "-C", repo, "diff"]).decode()
    assert diff
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(os.path.join(d, "meta.json"), "w"), indent=1)
    t = os.path.join(ROOT, "tools", "demo")
    shutil.copy(os.path.join(t, "demo.sh"), d)
    shutil.copy(os.path.join(t, "common.rs"), d)
    if main:
        open(os.path.join(d, "main.rs"), "w").write(main)
