#!/usr/bin/env python3
"""determinism_cli.py N: executes the same N seeds of each CLI property twice, in
different orders and directories, and counts the differences (trace hash, output, exit)."""
import sys, tempfile, os, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cli, check as C
from multiprocessing import Pool
def one(a):
    prop, seed, cpu = a
    os.environ["HARNESS_CPU"] = str(cpu)
    tmp = tempfile.mkdtemp(prefix="vsimdet.")
    try:
        o = cli.execute(cli.gen(prop, seed), tmp)
        return (o.rep.get("hash"), o.rep.get("sync_hash"), o.out, o.rc, o.rep.get("deviations"))
    finally:
        shutil.rmtree(tmp)
if __name__ == "__main__":
    n = int(sys.argv[1])
    for prop in ["C14", "C15", "C16", "C17", "C18", "C19", "C22"]:
        for p in cli.PACKAGES[prop]:
            C.build([p])
        with Pool(8) as pool:
            a = pool.map(one, [(prop, i, i % 8) for i in range(1, n + 1)], 7)
            b = pool.map(one, [(prop, i, (i + 3) % 8) for i in range(n, 0, -1)], 5)[::-1]
        print(prop, "differences:", sum(x != y for x, y in zip(a, b)), "of", n)
