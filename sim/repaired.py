#!/usr/bin/env python3
"""Copies the shipped programs to target/repaired with the known defects of
KNOWN_FINDINGS.txt that live in examples/ repaired (those files may not be changed in
/repo).  The campaigns run both the programs as they are and these copies, so that a
known defect hides no other one.  target/repaired/KIND.missing tells which repairs did
not apply (the text is no longer there): then only the original is run."""
import os, re
HERE = os.path.dirname(os.path.abspath(__file__))
SRC = "/repo/examples"
DST = os.path.join(HERE, "..", "target", "repaired")
S = r"\s*"
REPAIRS = {
    "psp": [
        # F10: the cost of an idle period is 0: its deadline is not in the future
        ("psp.rs", r"\*storage_cost = \(deadline - time\) \* cost;", "*storage_cost = deadline.saturating_sub(time) * cost;", 1),
        # F13: an error of the file system on a skipped line is an error
        ("psp.rs", r"let (_blank|_skip) = lines\.next\(\);", r"let \1 = lines.next().transpose()?;", 3),
    ],
    "srflp": [
        # F11: no department comes from maybe_place
        ("model.rs", r"n_from_maybe_place \* \(n_from_maybe_place - 1\) / 2", "n_from_maybe_place * n_from_maybe_place.saturating_sub(1) / 2", 1),
    ],
    "tsptw": [
        # F12: the last move goes back to the depot: it visits no city
        ("model.rs", r"(fn estimate.*?)let mut complete_tour = self\.nb_variables\(\) - state\.depth as usize;",
         r"\1let mut complete_tour = (self.nb_variables() - state.depth as usize).saturating_sub(1);", 1),
        ("model.rs", r"(fn estimate.*?)complete_tour -= 1;", r"\1complete_tour = complete_tour.saturating_sub(1);", 1),
    ],
}

def put(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)

for kind, repairs in REPAIRS.items():
    missing = []
    src = os.path.join(SRC, kind)
    for root, _, files in os.walk(src):
        for name in files:
            text = open(os.path.join(root, name)).read()
            rel = os.path.relpath(os.path.join(root, name), src)
            for i, (f, a, b, n) in enumerate(repairs):
                if f == rel:
                    text, k = re.subn(a, b, text, flags=re.S)
                    if k != n:
                        missing.append("%s: repair %d applied %d times, not %d" % (rel, i, k, n))
            put(os.path.join(DST, kind, rel), text)
    put(os.path.join(DST, kind + ".missing"), "\n".join(missing))
