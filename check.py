#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough : decides one property by seeded simulation.

Rebuilds the simulation from /repo's working tree, replays the regression corpus of
the property, searches seeds in parallel, minimises and confirms what it finds, and
writes /verif/evidence/PROPERTY.json.  Exit: 0 held, 1 violated, 2 no answer.
check.py replay FILE : re-executes a replay file.
"""
import json, os, re, resource, signal, struct, subprocess, sys, tempfile, time, shutil, glob

ROOT = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(ROOT, "sim")
TARGET = os.environ.get("VSIM_TARGET", os.path.join(ROOT, "target"))
BIN = os.path.join(TARGET, "sim")
HARNESS = os.path.join(BIN, "harness")
sys.path.insert(0, ROOT)

def cpus():
    try:
        return max(1, min(8, len(os.sched_getaffinity(0))))
    except OSError:
        return 4

def build(packages):
    cmd = [os.path.join(SIM, "build.sh")]
    for p in packages:
        cmd += ["-p", p]
    t = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print("check: the simulation does not build from /repo's working tree")
        sys.exit(2)
    return time.time() - t

def limits():
    m = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (m, m))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))

def known_findings(prop):
    """finding: property=ID match=REGEX what   (fixed: lines suppress nothing)"""
    out = []
    try:
        for l in open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    except OSError:
        pass
    return out

def parse_v(line):
    f = line.split("\t")
    return dict(prop=f[1], seed=f[2], case=f[3], msg=f[4], choices=f[5] if len(f) > 5 else "", hash=f[6] if len(f) > 6 else "")

def write_replay(path, v):
    with open(path, "w") as f:
        f.write("vsim-replay 1\nengine harness\nproperty %s\nsimseed %s\ncase %s\nchoices %s\nhash %s\nviolation %s\n"
                % (v["prop"], v["seed"], v["case"], v["choices"], v["hash"], v["msg"]))

def read_replay(path):
    d = {}
    for l in open(path):
        k, _, x = l.rstrip("\n").partition(" ")
        d[k] = x
    return d

def run_harness(args, timeout=200, env=None):
    """(violation or None, return code)"""
    try:
        r = subprocess.run([HARNESS] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           timeout=timeout, preexec_fn=limits, env=env)
    except subprocess.TimeoutExpired:
        return None, None
    for l in r.stdout.splitlines():
        if l.startswith("V\t"):
            return parse_v(l), r.returncode
    return None, r.returncode

SIGNALS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}

def crash_of(prop, case, simseed, rc):
    return dict(prop=prop, seed=str(simseed), case=case, choices="", hash="crash",
                msg="crash: the process is killed by signal %d" % -rc)

def seed_of(prop, seed):
    a = (seed * 0x9E3779B9) & (2**64 - 1)
    for b in prop.encode():
        a = (a * 31 + b) & (2**64 - 1)
    return a

def confirm(path):
    """replays a file in a fresh process: the violation it shows, or None"""
    v, rc = run_harness(["replay", path])
    if v:
        return v
    if rc is not None and rc < 0 and -rc in SIGNALS:
        d = read_replay(path)
        return crash_of(d["property"], d["case"], d["simseed"], rc)
    return None

def report(prop, v, budget, log):
    """minimise, confirm, and store a violation; the path of the replay file or None"""
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    name = "%s-%s-%d" % (prop, v["seed"], os.getpid())
    raw = os.path.join(ROOT, "replays", name + ".raw.replay")
    out = os.path.join(ROOT, "replays", name + ".replay")
    write_replay(raw, v)
    if v["hash"] != "crash":
        try:
            subprocess.run([HARNESS, "minimise", raw, out, str(budget)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                           timeout=budget * 3 + 200, preexec_fn=limits)
        except subprocess.TimeoutExpired:
            pass
    for p in (out, raw):
        if not os.path.exists(p):
            continue
        a, b = confirm(p), confirm(p)
        # (where a watchdog of CPU time strikes is not part of the execution)
        hung = a and b and a["msg"].startswith("hang:") and b["msg"].startswith("hang:")
        if hung or a and b and a["msg"] == b["msg"] and a["hash"] == b["hash"]:
            a["choices"] = a["choices"] or read_replay(p).get("choices", "")
            write_replay(out, a)
            if os.path.exists(raw):
                os.remove(raw)
            return out, a
    log.append("a violation did not reproduce from its replay file: %s %s" % (v["seed"], v["msg"]))
    return None, None

def verdict(prop, found, log, budget):
    """found: violations. Prints the outcome; the number of violations reported"""
    known = known_findings(prop)
    said, n = set(), 0
    seen = set()
    for v in found:
        k = re.sub(r"-?\d+", "#", v["msg"])[:120]
        if k in seen or n:
            continue
        seen.add(k)
        path, w = report(prop, v, budget, log)
        if not path:
            continue
        hit = [t for (r, t) in known if r.search(w["case"] + " " + w["msg"])]
        if hit:
            if hit[0] not in said:
                print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]))
                said.add(hit[0])
            continue
        print("  " + w["msg"])
        print("  case: " + w["case"])
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        n += 1
    return n

RULES = json.load(open(os.path.join(ROOT, "rules.json")))

def harness_check(prop, tier, seed):
    t0 = time.time()
    bt = build(["harness"])
    log, found = [], []
    # 1. the regression corpus: simulations that once failed
    corpus = [p for p in sorted(glob.glob(os.path.join(ROOT, "findings", "*.replay")) + glob.glob(os.path.join(ROOT, "corpus", "*.replay")))
              if read_replay(p).get("property") == prop and read_replay(p).get("engine") == "harness"]
    replayed = 0
    for p in corpus:
        v = confirm(p)
        replayed += 1
        if not v:
            d = read_replay(p)
            v, rc = run_harness(["search", prop, "200", d["simseed"]] + d["case"].split(), timeout=60)
        if v:
            found.append(v)
    # 2. the search
    n = cpus()
    secs = float(os.environ.get("VSIM_SECONDS", 50 if tier == "quick" else 600))
    tmp = tempfile.mkdtemp(prefix="vsim.")
    base = (seed - 1) * 1_000_000_000 + 1
    ws, samples, stats = [], [], {}
    deadline = time.time() + secs

    def start(i, first, left):
        env = dict(os.environ, HARNESS_CPU=str(i), HARNESS_HASHES=os.path.join(tmp, "h%d.%d" % (i, first)))
        o = open(os.path.join(tmp, "o%d.%d" % (i, first)), "w+")
        p = subprocess.Popen([HARNESS, "campaign", prop, str(first), str(n), "%.1f" % left, "1000000000", os.path.join(tmp, "p%d" % i)],
                             stdout=o, stderr=subprocess.DEVNULL, preexec_fn=limits, env=env)
        return [i, p, o]

    if not found:
        ws = [start(i, base + i, secs) for i in range(n)]
    while ws:
        for w in list(ws):
            i, p, o = w
            rc = p.poll()
            if rc is None:
                if time.time() > deadline + 90:
                    p.kill()
                    log.append("worker %d did not stop in time" % i)
                continue
            ws.remove(w)
            o.seek(0)
            for l in o.read().splitlines():
                if l.startswith("V\t"):
                    found.append(parse_v(l))
                elif l.startswith("E\t"):
                    samples.append(dict(zip(["seed", "case", "steps", "switches", "threads", "sim_ns", "trace_hash"], l.split("\t")[1:])))
                elif l.startswith("S\t"):
                    for kv in l[2:].split():
                        k, _, x = kv.partition("=")
                        x = float(x)
                        if k in ("maxsync", "cov", "covn", "next"):
                            stats[k] = max(stats.get(k, 0), x)
                        elif k == "seconds":
                            stats[k] = stats.get(k, 0) + x
                        else:
                            stats[k] = stats.get(k, 0) + x
            o.close()
            if rc < 0 and -rc in SIGNALS:
                sd = struct.unpack("<Q", open(os.path.join(tmp, "p%d" % i), "rb").read(8))[0]
                case = subprocess.run([HARNESS, "gen", prop, str(sd)], stdout=subprocess.PIPE, text=True).stdout.strip()
                v, rc2 = run_harness(["search", prop, "1", str(seed_of(prop, sd))] + case.split())
                if v:
                    found.append(v)
                elif rc2 is not None and rc2 < 0 and -rc2 in SIGNALS:
                    found.append(crash_of(prop, case, seed_of(prop, sd), rc2))
                else:
                    log.append("worker %d died of signal %d at seed %d, which does not happen again" % (i, -rc, sd))
                    left = deadline - time.time()
                    if left > 2:
                        ws.append(start(i, sd + n, left))
            if found:
                for x in ws:
                    x[1].kill()
                    x[1].wait()
                ws = []
                break
        time.sleep(0.05)
    hashes = glob.glob(os.path.join(tmp, "h*"))
    distinct = int(subprocess.run([HARNESS, "union"] + hashes, stdout=subprocess.PIPE, text=True).stdout or 0) if hashes else 0
    shutil.rmtree(tmp, ignore_errors=True)
    violations = verdict(prop, found, log, 40 if tier == "quick" else 120)
    # 3. the evidence
    g = lambda k: int(stats.get(k, 0))
    wall = time.time() - t0
    runs = g("runs")
    secs_run = max(stats.get("seconds", 0) / n, 1e-9)
    cov = dict(
        evaluations=runs + replayed,
        distinct_nontrivial=distinct,
        rule=RULES["common"] + " " + RULES["nontrivial"].get(prop, RULES["nontrivial"]["default"]),
        samples=samples[:6] or [dict(v) for v in found[:1]],
        simulated_runs=runs,
        seeds="%d .. %d" % (base, int(stats.get("next", base))),
        runs_per_hour=int(runs / secs_run * 3600),
        regression_replays=replayed,
        simulated_seconds=round(stats.get("sim_ns", 0) / 1e9, 3),
        scheduler_steps=g("steps"), context_switches=g("switches"), scheduling_decisions=g("choices"),
        threads_simulated=g("threads"),
        distinct_models=g("models"),
        nontrivial_runs=g("nontrivial"),
        interrupted_runs=g("interrupted"), runs_with_callback_panic=g("panicked"), infeasible_models=g("infeasible"),
        subproblems_processed=g("starts"),
        longest_run_sync_steps=g("maxsync"),
        injected_faults={k[6:]: int(x) for k, x in stats.items() if k.startswith("fault.")},
        scheduling_points={k[5:]: int(x) for k, x in stats.items() if k.startswith("kind.")},
        runs_per_strategy={RULES["strategies"][int(k[9:])]: int(x) for k, x in stats.items() if k.startswith("strategy.")},
        interleaving_measure="distinct hashes of the sequence (thread, kind of scheduling point, object order) of a run, over all workers",
        basic_blocks_covered="%d of %d instrumented (library, harness and their generic instances; best worker)" % (g("cov"), g("covn")),
        real_components=RULES["real"],
        stubbed_components=RULES["stub"],
        workers=n, build_seconds=round(bt, 1), notes=log,
    )
    write_evidence(prop, tier, seed, cov, wall, violations)
    for l in log:
        print("note: " + l)
    print("%s: %d simulated runs, %d distinct non-trivial, %d violations, %.0f s" % (prop, runs, distinct, violations, wall))
    if runs == 0 and not violations:
        return 2
    return 1 if violations else 0

def write_evidence(prop, tier, seed, cov, wall, violations):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    e = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=RULES["assumptions"],
             wall_s=round(wall, 2), violations=violations)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(e, f, indent=1)

def main():
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        d = read_replay(sys.argv[2])
        if d.get("engine") == "cli":
            import cli
            return cli.replay(sys.argv[2])
        build(["harness"])
        v = confirm(sys.argv[2])
        if v:
            print("  " + v["msg"])
            print("VIOLATION property=%s replay=%s" % (v["prop"], sys.argv[2]))
            return 1
        print("no violation")
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = max(1, int(os.environ.get("VERIF_SEED", "1")))
    except ValueError:
        seed = 1
    if prop in RULES["cli"]:
        import cli
        return cli.check(prop, tier, seed)
    return harness_check(prop, tier, seed)

if __name__ == "__main__":
    sys.exit(main())
