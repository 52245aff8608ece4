"""The programs shipped with the library (psp, srflp, tsptw) and the helpers of xputils,
each run as one simulation per process: real main(), real argument parsing, real file
reading; simulated threads, clock and I/O faults (see sim/simrt/src/interpose.rs)."""
import glob, json, multiprocessing, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time
from functools import lru_cache
from itertools import product
import check as C

NEG = -(2**63)
POS = 2**63 - 1

# ------------------------------------------------------------------ instances

def closure(d):
    n = len(d)
    for k in range(n):
        for i in range(n):
            for j in range(n):
                if d[i][k] + d[k][j] < d[i][j]:
                    d[i][j] = d[i][k] + d[k][j]
    return d

def gen_tsptw(r, big=False):
    n = r.choice([2, 3, 4, 5, 6, 6, 7, 7, 8] + ([8, 9, 9, 10] if big else []))
    m = r.choice([3, 10, 40, 100])
    if r.random() < 0.5:
        xy = [(r.randint(0, m), r.randint(0, m)) for _ in range(n)]
        d = [[abs(a[0] - b[0]) + abs(a[1] - b[1]) for b in xy] for a in xy]
    else:
        d = [[0 if i == j else r.randint(0 if r.random() < .1 else 1, m) for j in range(n)] for i in range(n)]
    closure(d)
    tour = list(range(1, n))
    r.shuffle(tour)
    t, cur, tw = 0, 0, [None] * n
    hor = 1500
    slack = r.choice([0, 1, m // 2, m, 3 * m])
    waits = r.choice([.1, .3, .8])
    for c in tour:
        t += d[cur][c]
        if r.random() < waits:
            t += r.randint(0, m)  # a wait
            tw[c] = [t, t + r.randint(0, slack)]
        else:
            tw[c] = [max(0, t - r.randint(0, slack)), t + r.randint(0, slack)]
        cur = c
    tw[0] = [0 if r.random() < .9 else r.randint(0, m), min(hor, t + d[cur][0] + r.choice([0, slack, 500]))]
    for c in range(1, n):
        x = r.random()
        if x < .15:
            tw[c] = [0, hor]
        elif x < .2:
            a = r.randint(0, n * m)
            tw[c] = [min(a, hor), min(a + r.randint(0, m), hor)]
    tw = [[min(a, hor), min(b, hor)] for a, b in tw]
    return dict(kind="tsptw", d=d, tw=tw, style=r.randint(0, 3))

def gen_tsptw_large(r):
    """many cities (more than a word of a bit set), narrow time windows"""
    n = r.choice([34, 62, 63, 64, 65, 66, 70, 100, 129, 131])
    m = r.choice([10, 40])
    xy = [(r.randint(0, m), r.randint(0, m)) for _ in range(n)]
    d = [[abs(a[0] - b[0]) + abs(a[1] - b[1]) for b in xy] for a in xy]
    tour = list(range(1, n))
    r.shuffle(tour)
    slack = r.choice([0, 1, 2, m // 5])
    t, cur, tw = 0, 0, [None] * n
    for c in tour:
        t += d[cur][c] + (r.randint(0, m) if r.random() < .3 else 1)
        tw[c] = [max(0, t - r.randint(0, slack)), t + r.randint(0, slack)]
        cur = c
    tw[0] = [0, t + d[cur][0] + slack]
    return dict(kind="tsptw", d=d, tw=tw, style=r.randint(0, 3))

def text_tsptw(x):
    s = []
    st = x["style"]
    if st & 1:
        s.append("# a comment")
        s.append("")
    s.append(str(len(x["d"])) + ("  " if st & 2 else ""))
    f = (lambda v: "%d.0" % v) if st & 2 else str
    s += [" ".join(f(v) for v in row) + (" " if st & 1 else "") for row in x["d"]]
    s += ["%s   %s" % (f(a), f(b)) for a, b in x["tw"]]
    return "\n".join(s) + "\n"

def opt_tsptw(x):
    d, tw, n = x["d"], x["tw"], len(x["d"])
    full = (1 << n) - 1
    best = {(1, 0): 0}
    frontier = best
    for _ in range(n - 1):
        nxt = {}
        for (s, i), t in frontier.items():
            todo = [j for j in range(1, n) if not s >> j & 1]
            if any(t > tw[j][1] for j in todo):
                continue
            for j in todo:
                a = t + d[i][j]
                if a <= tw[j][1]:
                    k, a = (s | 1 << j, j), max(a, tw[j][0])
                    if a < nxt.get(k, 1 << 60):
                        nxt[k] = a
        frontier = nxt
    res = [max(t + d[i][0], tw[0][0]) for (s, i), t in frontier.items() if s == full and t + d[i][0] <= tw[0][1]]
    return -min(res) * 10000 if res else None

def gen_psp(r, big=False):
    p = r.choice([2, 3, 4, 5, 6, 7, 8] + ([9, 10, 12] if big else []))
    k = r.choice([1, 2, 3, 3, 4, 4, 5])
    m = r.choice([3, 10, 100])
    ch = closure([[0 if i == j else r.randint(0 if r.random() < .2 else 1, m) for j in range(k)] for i in range(k)])
    st = [r.randint(0, r.choice([3, 20])) for _ in range(k)]
    dens = r.choice([.3, .6, .9])
    orders = min(int(p * dens) + 1, p) + (1 if r.random() < .05 else 0)
    dem = [[0] * p for _ in range(k)]
    for _ in range(orders):
        i = r.randrange(k)
        t = r.choice([p - 1, r.randrange(p)])
        dem[i][t] = 1
    if r.random() < .8:
        # make it feasible: move deadlines later
        cells = sorted([(t, i) for i in range(k) for t in range(p) if dem[i][t]])
        dem = [[0] * p for _ in range(k)]
        c = 0
        for t, i in cells:
            t = max(t, c)
            while t < p and dem[i][t]:
                t += 1
            if t < p:
                dem[i][t] = 1
                c += 1
    return dict(kind="psp", ch=ch, st=st, dem=dem, style=r.randint(0, 3))

def text_psp(x):
    p, k = len(x["dem"][0]), len(x["dem"])
    s = [str(p), str(k), str(sum(map(sum, x["dem"]))), ""]
    s += [" ".join(map(str, row)) + (" " if x["style"] & 1 else "") for row in x["ch"]]
    s += ["", " ".join(map(str, x["st"])) + " ", ""]
    s += [" ".join(map(str, row)) + " " for row in x["dem"]]
    if x["style"] & 2:
        s += ["", "", "42"]
    return "\n".join(s) + "\n"

def opt_psp(x):
    ch, st, dem = x["ch"], x["st"], x["dem"]
    k, p = len(dem), len(dem[0])
    cum = [[sum(dem[i][:t + 1]) for t in range(p)] for i in range(k)]
    tot = [cum[i][p - 1] for i in range(k)]
    dl = [[t for t in range(p) if dem[i][t]] for i in range(k)]
    cur = {(tuple([0] * k), -1): 0}
    for t in range(p):
        nxt = {}
        for (c, last), v in cur.items():
            for i in range(-1, k):
                if i < 0:
                    c2, l2, v2 = c, last, v
                else:
                    if c[i] >= tot[i]:
                        continue
                    # the j-th production serves the j-th demand, in time
                    due = dl[i][c[i]]
                    if due < t:
                        continue
                    c2 = c[:i] + (c[i] + 1,) + c[i + 1:]
                    v2 = v + st[i] * (due - t) + (ch[last][i] if last >= 0 else 0)
                    l2 = i
                if all(c2[j] >= cum[j][t] for j in range(k)):
                    if v2 < nxt.get((c2, l2), 1 << 60):
                        nxt[(c2, l2)] = v2
        cur = nxt
    res = [v for (c, _), v in cur.items() if list(c) == tot]
    return -min(res) if res else None

def gen_srflp(r, big=False):
    n = r.choice([1, 2, 3, 4, 5, 6, 7, 7, 8] + ([8, 9, 9] if big else []))
    lm, fm = r.choice([1, 5, 20, 60]), r.choice([1, 5, 10, 100])
    dens = r.choice([.3, .7, 1])
    f = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            f[i][j] = f[j][i] = r.randint(1, fm) if r.random() < dens else 0
    mode = r.randint(0, 3)
    if mode == 1:  # only one triangle is given
        for i in range(n):
            for j in range(i):
                f[i][j] = 0
    if mode == 2:
        for i in range(n):
            for j in range(n):
                if i != j and r.random() < .3:
                    f[i][j] = r.randint(0, fm)
    return dict(kind="srflp", l=[r.randint(1, lm) for _ in range(n)], f=f, style=r.randint(0, 3))

def text_srflp(x):
    sep = [" ", ",", ", ", "\t"][x["style"]]
    s = [str(len(x["l"])), sep.join(map(str, x["l"]))]
    if x["style"] & 1:
        s.append("")
    s += [sep.join(map(str, row)) for row in x["f"]]
    return "\n".join(s) + "\n"

def opt_srflp(x):
    n, l, f = len(x["l"]), x["l"], x["f"]
    g = [[0 if i == j else (f[i][j] if f[i][j] == f[j][i] else f[i][j] + f[j][i]) for j in range(n)] for i in range(n)]
    best = [1 << 60] * (1 << n)
    best[0] = 0
    for s in range(1 << n):
        for d in range(n):
            if not s >> d & 1:
                # the flow over department d: from the left of it to the right of it
                rest = [i for i in range(n) if not s >> i & 1 and i != d]
                c = sum(g[a][b] for a in range(n) if s >> a & 1 for b in rest) * l[d]
                t = s | 1 << d
                if best[s] + c < best[t]:
                    best[t] = best[s] + c
    return -best[(1 << n) - 1]

def gen_model(r):
    """a synthetic model of the harness (see sim/harness/src/case.rs), for sim_model"""
    n, d = r.choice([1, 2, 3, 4, 5, 6, 7]), r.choice([1, 2, 2, 3, 3, 4])
    while d ** n > 2500:
        n -= 1
    c = dict(model_seed=r.randrange(1 << 40), n=n, d=d, b=r.choice([1, 3, 5, 8, 12, 15]), forbid=r.choice([0, 0, 10, 30, 50]),
             init=r.choice([0, 0, 5, -5, 1000, -1000]), est=r.choice([0, 0, 0, 1, 2, 4]), rank=r.randrange(5), hash_kind=r.choice([0, 3]),
             width=r.choice([1, 1, 2, 3]), relax_slack=r.choice([0, 0, 3]), shift=r.choice([0, 0, 2]), perm=r.choice([0, 1]))
    c["cost_lo"], c["cost_hi"] = r.choice([(0, 3), (-2, 2), (-10, 10), (-12, -1), (-100, 100), (1, 100)])
    if r.random() < .2:
        c["scale"] = r.choice([1000, 1000007, 10**12 + 7, 10**15 + 7])
    c["solver"], c["cutset"], c["threads"] = r.choice([0, 2]), r.choice([0, 1]), r.choice([0, 1, 2, 2, 3, 4, 6])
    if r.random() < .2:
        c["ctor"] = 3  # one per processor
    c["int_k"] = r.choice([0, r.randrange(10**6), r.randrange(10**8), r.randrange(10**10), 10**15])
    return dict(kind="model", case=c, style=0)

GEN = dict(tsptw=gen_tsptw, psp=gen_psp, srflp=gen_srflp)
TEXT = dict(tsptw=text_tsptw, psp=text_psp, srflp=text_srflp)
OPT = dict(tsptw=opt_tsptw, psp=opt_psp, srflp=opt_srflp)
PROBLEM = {"C14": "tsptw", "C15": "psp", "C16": "srflp"}

def shrinks(x):
    """smaller instances"""
    k = x["kind"]
    if k == "model":
        c = x["case"]
        for f, v in (("n", c["n"] - 1), ("d", c["d"] - 1), ("b", 1), ("b", c["b"] // 2), ("threads", 1), ("threads", 2), ("forbid", 0), ("init", 0),
                     ("est", 0), ("scale", 1), ("relax_slack", 0), ("shift", 0), ("perm", 0), ("rank", 0), ("ctor", 0), ("int_k", 0), ("int_k", 10**15)):
            if v != c.get(f, 0 if f == "ctor" else 1 if f == "scale" else None) and v >= (1 if f in "ndb" else 0):
                yield dict(x, case=dict(c, **{f: v}))
        return
    if k == "tsptw":
        for c in range(1, len(x["d"])):
            keep = [i for i in range(len(x["d"])) if i != c]
            yield dict(x, d=[[x["d"][i][j] for j in keep] for i in keep], tw=[x["tw"][i] for i in keep])
    elif k == "psp":
        n, p = len(x["dem"]), len(x["dem"][0])
        for c in range(n):
            if n > 1:
                keep = [i for i in range(n) if i != c]
                yield dict(x, ch=[[x["ch"][i][j] for j in keep] for i in keep], st=[x["st"][i] for i in keep], dem=[x["dem"][i] for i in keep])
        for t in range(p):
            if p > 1:
                yield dict(x, dem=[row[:t] + row[t + 1:] for row in x["dem"]])
        for i in range(n):
            for t in range(p):
                if x["dem"][i][t]:
                    yield dict(x, dem=[[0 if (a, b) == (i, t) else v for b, v in enumerate(row)] for a, row in enumerate(x["dem"])])
    else:
        for c in range(len(x["l"])):
            keep = [i for i in range(len(x["l"])) if i != c]
            if keep:
                yield dict(x, l=[x["l"][i] for i in keep], f=[[x["f"][i][j] for j in keep] for i in keep])
    if x["style"]:
        yield dict(x, style=0)

# ---------------------------------------------------------------------- cases

def gen_sim(r, env):
    env["VSIM_STRATEGY"] = r.choice([0, 0, 0, 1, 2, 2, 3, 4])
    env["VSIM_P"] = r.choice([2, 4, 8, 16, 40])
    env["VSIM_PCT_D"] = r.choice([1, 2, 3, 5])
    env["VSIM_PCT_LEN"] = r.choice([100, 400, 1500])
    if r.random() < .25:
        env["VSIM_EDGE_GAP"] = r.choice([20, 100, 500])
    if r.random() < .2:
        env["VSIM_SPURIOUS_PPM"] = 20000
    env["VSIM_TICK_NS"] = 200
    # generous caps: the larger instances take long
    env.update(VSIM_EDGE_CAP=4 * 10**9, VSIM_STEP_CAP=1500000, VSIM_FAIR_CAP=3000000, VSIM_ABS_CAP=20000000)

def gen(prop, seed):
    r = random.Random("%s/%d" % (prop, seed))
    env = dict(VSIM_SEED=r.randrange(1, 1 << 62))
    gen_sim(r, env)
    if prop == "C19":
        env["VSIM_TICK_NS"] = r.choice([1000, 1000000, 50000000])
        if r.random() < .3:
            env["VSIM_CLOCK_JUMP_PPM"] = r.choice([1000, 20000])
            env["VSIM_CLOCK_JUMP_MAX_NS"] = r.choice([10**6, 10**9])
        return dict(prop=prop, inst=dict(kind="timeout", ms=r.choice([0, 1, 10, 100]), steps=r.choice([0, 1, 3, 10, 40, 100]), work=r.choice([0, 1, 5, 20]), style=0), args={}, env=env)
    if prop == "C17" and r.random() < .4:
        env["VSIM_TICK_NS"] = r.choice([1000, 10**5, 10**6, 10**7])
        env["VSIM_CPUS"] = r.choice([1, 2, 3, 6])
        if r.random() < .3:
            env["VSIM_CLOCK_JUMP_PPM"] = r.choice([500, 5000, 50000])
            env["VSIM_CLOCK_JUMP_MAX_NS"] = r.choice([10**6, 10**9, 100 * 10**9])
        return dict(prop=prop, inst=gen_model(r), args={}, env=env)
    if prop == "C22":
        return gen_command(r, env)
    kind = PROBLEM.get(prop) or r.choice(["tsptw", "psp", "srflp"])
    inst = gen_tsptw_large(r) if prop == "C14" and r.random() < .02 else GEN[kind](r, big=True)
    args = dict(solver=r.choice(["parallel", "barrier"]), cutset=r.choice(["lel", "frontier"]))
    args["threads"] = r.choice([1, 2, 2, 3, 4])
    if r.random() < .2:
        del args["threads"]
        env["VSIM_CPUS"] = r.choice([1, 2, 3, 6])
    if r.random() < .2:
        args["width"] = r.choice([1, 2, 5])
    if prop == "C17":
        args["timeout"] = r.choice([0, 0, 1, 1, 2, 3, 10, 10, 100, 4200, 10**5, 4294968, 10**9])
        env["VSIM_TICK_NS"] = r.choice([10**6, 10**7, 10**7, 5 * 10**7, 10**8, 4 * 10**8])
        if r.random() < .4:
            env["VSIM_CLOCK_JUMP_PPM"] = r.choice([500, 5000, 50000])
            env["VSIM_CLOCK_JUMP_MAX_NS"] = r.choice([10**8, 10**9, 100 * 10**9])
        if r.random() < .2:
            spawn_jump(r, env, args["timeout"])
    elif r.random() < .3:
        args["timeout"] = r.choice([60, 3600])
    if prop == "C18":
        args["threads"] = r.choice([1, 2])
        env["VSIM_FILE"] = "inst"
        env["VSIM_SHORT_READ_PPM"] = r.choice([0, 300000, 900000, 1000000])
        env["VSIM_EINTR_PPM"] = r.choice([0, 0, 100000, 300000])
        env["VSIM_EIO_PPM"] = r.choice([0, 10000, 100000, 300000])
        env["VSIM_OPEN_FAIL_PPM"] = r.choice([0, 0, 0, 300000])
    case = dict(prop=prop, inst=inst, args=args, env=env)
    # the program as shipped, or with its known defects repaired (see sim/repaired.py)
    if r.random() < .4 and repaired(kind):
        case["build"] = "repaired"
    return case

SHORT = dict(file="-f", width="-w", timeout="-t", threads="-T", solver="-s", cutset="-c")

def spawn_jump(r, env, limit):
    """the clock comes close to the limit, on either side, before the workers start"""
    env["VSIM_TICK_NS"] = 200
    for k in ("VSIM_CLOCK_JUMP_PPM", "VSIM_CLOCK_JUMP_MAX_NS"):
        env.pop(k, None)
    env["VSIM_SPAWN_JUMP_NS"] = max(0, limit * 10**9 + r.choice([-10**9, -5 * 10**8, -5 * 10**7, 5 * 10**7, 5 * 10**8, 10**9]))

def gen_command(r, env):
    """a command line, valid or not"""
    kind = r.choice(["tsptw", "psp", "srflp"])
    inst = GEN[kind](r)
    env["VSIM_CPUS"] = r.choice([1, 2, 3, 5])
    env["VSIM_TICK_NS"] = r.choice([200, 10**6, 10**8, 10**9])
    case = dict(prop="C22", inst=inst, args={}, env=env)
    if repaired(kind):
        case["build"] = "repaired"
    if r.random() < .05:
        case.update(argv=["print-header"], expect="header")
        return case
    args = dict(file="inst")
    for k, p, v in (("solver", .7, ["parallel", "barrier"]), ("cutset", .5, ["lel", "frontier"]), ("threads", .6, [0, 1, 2, 3, 7]),
                    ("width", .6, [1, 2, 5, 100000]), ("timeout", .5, [0, 1, 5, 60, 100, 100000, 4294968, 10**9])):
        if r.random() < p:
            args[k] = r.choice(v)
    if r.random() < .5:
        spawn_jump(r, env, args.get("timeout", 60))
    expect = "run"
    if r.random() < .15:
        expect = "usage"
        k = r.randrange(8)
        if k == 0:
            del args["file"]
        elif k == 1:
            args["solver"] = r.choice(["", "Parallel", "sequential", "paralle", "barriers"])
        elif k == 2:
            args["cutset"] = r.choice(["", "LEL", "lastexactlayer", "front"])
        elif k < 6:
            args[["threads", "width", "timeout"][k - 3]] = r.choice(["", "-1", "1.5", "two", "1e3", "99999999999999999999"])
        elif k == 6:
            args["file"] = r.choice(["absent", "."])
        else:
            args["colour"] = "red"
    argv = ["solve"]
    items = list(args.items())
    r.shuffle(items)
    for k, v in items:
        how = r.randrange(4)
        if k not in SHORT:
            how = 0
        argv += [["--" + k, str(v)], ["--%s=%s" % (k, v)], [SHORT.get(k), str(v)], ["%s%s" % (SHORT.get(k), v)] if str(v) else ["--" + k, ""]][how]
    case.update(argv=argv, expect=expect, args={k: v for k, v in args.items() if k != "file"})
    return case

HEADER = ["NAME", "SOLVER", "STATUS", "DURATION", "RAM_(MB)", "BEST-VAL", "LB", "UB", "GAP", "NODES B&B", "NODES DD"]

def judge_command(case, o):
    if case["expect"] == "header":
        lines = [[f.strip() for f in l.split("|")] for l in o.out.splitlines() if l.strip()]
        if o.rc != 0 or lines != [HEADER]:
            return "header: exit status %s, %s" % (o.rc, o.out.strip()[:200])
        return None
    if case["expect"] == "usage":
        if o.rc == 0 or o.out.strip():
            return "arguments: accepted, exit status %s: %s" % (o.rc, o.out.strip()[:200])
        return None
    if o.rc != 0:
        if not case.get("build") and "/examples/" in o.err:
            return None  # the matter of C14 to C16
        return "panic: exit status %d: %s" % (o.rc, last_err(o))
    try:
        d = parse(o)
    except ValueError as e:
        return "report: %s" % e
    a = case["args"]
    want = int(a.get("threads", case["env"]["VSIM_CPUS"])) or 1
    if not workers(o, want):
        return "arguments: %d threads created instead of %d" % (int(o.rep["threads"]) - 1, want)
    if d["name"] != "inst" or d["solver"] != a.get("solver", "parallel"):
        return "arguments: %r by %r" % (d["name"], d["solver"])
    if d["status"] == "Timeout" and d["duration"] < a.get("timeout", 60) * (1 - 1e-6) - .01:
        return "arguments: timeout after %.2f s" % d["duration"]
    if overdue(case, o, d, a.get("timeout", 60), want):
        return overdue(case, o, d, a.get("timeout", 60), want)
    if d["status"] == "Proved" and a.get("width") == 100000 and d["explored"] != 1:
        return "arguments: %d subproblems with diagrams of unlimited width" % d["explored"]
    return None

@lru_cache(None)
def repaired(kind):
    """whether every known defect of the program could be repaired in its copy"""
    try:
        return open(os.path.join(C.ROOT, "target", "repaired", kind + ".missing")).read() == ""
    except OSError:
        return False

class Run:
    pass

def execute(case, tmp, choices=None, wall=120):
    kind = case["inst"]["kind"]
    if kind == "timeout":
        argv = [os.path.join(C.BIN, "sim_timeout"), str(case["inst"]["ms"]), str(case["inst"]["steps"]), str(case["inst"]["work"])]
    elif kind == "model":
        argv = [os.path.join(C.BIN, "sim_model")]
    else:
        with open(os.path.join(tmp, "inst"), "w") as f:
            f.write(TEXT[kind](case["inst"]))
        b = case.get("build")
        argv = [os.path.join(C.BIN, "sim_" + kind + ("_" + b if b else ""))]
        if "argv" in case:
            argv += case["argv"]
        else:
            argv += ["solve", "--file", "inst"]
            for k, v in sorted(case["args"].items()):
                argv += ["--" + k, str(v)]
    env = {k: str(v) for k, v in case["env"].items()}
    env["VSIM_REPORT"] = "rep"
    if kind == "model":
        env["VSIM_CASE"] = " ".join("%s=%d" % kv for kv in sorted(case["inst"]["case"].items()))
    env["VSIM_CPU"] = os.environ.get("HARNESS_CPU", "0")
    if choices is not None:
        env["VSIM_REPLAY"] = choices
    rep = os.path.join(tmp, "rep")
    try:
        os.unlink(rep)
    except FileNotFoundError:
        pass
    o = Run()
    try:
        p = subprocess.run(argv, cwd=tmp, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=wall, close_fds=False)
        o.rc, o.out, o.err = p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        o.rc, o.out, o.err = None, (e.stdout or b"").decode(errors="replace"), ""
    o.rep = {}
    try:
        for l in open(rep):
            k, _, v = l.rstrip("\n").partition("=")
            o.rep[k] = v
    except OSError:
        pass
    o.faults = {k[6:]: int(v) for k, v in o.rep.items() if k.startswith("fault.")}
    return o

COLS = ["name", "solver", "status", "duration", "ram", "best", "lb", "ub", "gap", "explored", "explored_dd"]

def parse(o):
    lines = [l for l in o.out.splitlines() if l.strip()]
    if len(lines) != 1:
        raise ValueError("%d report lines" % len(lines))
    return parse_line(lines[0])

def parse_line(line):
    f = [x.strip() for x in line.split("|")]
    if len(f) != len(COLS):
        raise ValueError("%d columns" % len(f))
    d = dict(zip(COLS, f))
    for k in ("lb", "ub", "explored", "explored_dd"):
        d[k] = int(d[k])
    d["duration"] = float(d["duration"])
    d["gap"] = float(d["gap"])
    d["best"] = None if d["best"] == "not found" else int(d["best"])
    return d

def last_err(o):
    x = [re.sub(r"thread '([^']*)' \(\d+\)", r"thread '\1'", l) for l in o.err.splitlines()]  # no OS thread ids
    e = [l for l in x if "panicked at" in l]
    if e:
        i = x.index(e[0])
        return (e[0] + " " + (x[i + 1] if i + 1 < len(x) else ""))[:200]
    return (x[-1] if x else "")[:200]

def dead(o):
    if o.rc is None:
        return "hang: the program does not finish"
    if o.rc == 70:
        return "%s: %s" % (o.rep.get("end", "?"), o.rep.get("msg", "")[:200])
    if o.rc < 0:
        return "crash: signal %d" % -o.rc
    return None

def judge_model(case, o):
    c = case["inst"]["case"]
    lines = o.out.splitlines()
    if [f.strip() for f in lines[0].split("|")] != HEADER:
        return "header: %s" % lines[0]
    said = dict(l.split(" ", 1) for l in lines[2:])
    opt = None if said["optimum"] == "none" else int(said["optimum"])
    try:
        d = parse_line(lines[1])
    except ValueError as e:
        return "report: %s" % e
    v = judge_line(case, d, o, True, opt, "synthetic", "barrier" if c["solver"] == 2 else "parallel", c["int_k"] / 1e9)
    if v:
        return v
    if int(said["returned"]) != d["ub"]:
        return "report: upper bound %d but %s is returned" % (d["ub"], said["returned"])
    if d["explored_dd"] != int(said["expanded"]) or d["explored"] < int(said["started"]):
        return "report: %d subproblems, %d nodes instead of %s, %s" % (d["explored"], d["explored_dd"], said["started"], said["expanded"])
    want = case["env"]["VSIM_CPUS"] if c.get("ctor") == 3 else c["threads"] or 1
    if not workers(o, want):
        return "report: %d threads created instead of %d" % (int(o.rep["threads"]) - 1, want)
    if int(said["late"]) > want:
        return "promptness: %s subproblems started after the time limit by %d workers" % (said["late"], want)
    return None

def workers(o, want):
    """is this the number of workers? (the calling thread may be one of them)"""
    return want - 1 <= int(o.rep["threads"]) - 1 <= want

def overdue(case, o, d, limit, workers):
    """no worker starts more than one subproblem after the limit"""
    j = case["env"].get("VSIM_SPAWN_JUMP_NS", 0)
    if j > limit * 10**9 and o.faults.get("clock_jump") and d["explored"] > workers:
        return "promptness: %d subproblems started after the time limit by %d workers" % (d["explored"], workers)
    return None

def judge_line(case, d, o, interruptible, opt, name, solver, limit):
    lo = NEG if opt is None else opt
    if d["name"] != name or d["solver"] != solver:
        return "report: the line is about %r by %r" % (d["name"], d["solver"])
    proved = d["status"] == "Proved"
    if not proved and d["status"] != "Timeout":
        return "report: status %r" % d["status"]
    if not proved and not interruptible:
        return "status: %s although the time limit is far away" % d["status"]
    if d["best"] is None and d["lb"] != NEG or d["best"] is not None and d["lb"] != d["best"]:
        return "bounds: lower bound %d with best value %s" % (d["lb"], d["best"])
    if d["best"] is not None and (opt is None or d["best"] > opt):
        return "solution: best value %d while the optimum is %s" % (d["best"], opt)
    if d["ub"] < lo:
        return "bounds: upper bound %d below the optimum %s" % (d["ub"], opt)
    if proved:
        if d["best"] != opt:
            return "optimum: %s instead of %s" % (d["best"], opt)
        if d["ub"] != d["lb"]:
            return "bounds: [%d, %d] once proved" % (d["lb"], d["ub"])
    t = limit
    if not proved and d["duration"] < t - 0.01 - t * 1e-6:
        return "status: timeout after %.2f s while the limit is %s s" % (d["duration"], t)
    total = int(o.rep.get("sim_ns", 0)) / 1e9
    if d["duration"] > total + 0.01 + total * 1e-6:
        return "report: duration %.2f s of a run of %.2f s" % (d["duration"], total)
    g = d["gap"]
    if not g >= 0 or g > 2:
        return "gap: %r with bounds [%d, %d]" % (g, d["lb"], d["ub"])
    if d["lb"] == d["ub"] and g != 0:
        return "gap: %r with equal bounds" % g
    if d["lb"] != d["ub"]:
        want = (d["ub"] - d["lb"]) / max(abs(d["ub"]), abs(d["lb"]), 1)
        if abs(g - want) > 0.01 * want + 0.0002:
            return "gap: %r with bounds [%d, %d]" % (g, d["lb"], d["ub"])
    if d["explored"] < 1 and proved or min(d["explored"], d["explored_dd"]) < 0:
        return "report: %d subproblems, %d nodes" % (d["explored"], d["explored_dd"])
    return None

def judge(case, o):
    """a description of the violation, or None"""
    prop = case["prop"]
    x = dead(o)
    if x:
        return x
    if prop == "C19":
        return judge_timeout(case, o)
    if prop == "C22":
        return judge_command(case, o)
    if prop == "C18":
        hard = sum(o.faults.get(k, 0) for k in ("read_eio", "open_fail"))
        if hard:
            if o.rc == 0:
                # the program may only claim success if it read everything
                return "io: an error of the file system went unnoticed: %s" % (o.out.strip()[:200])
            if o.out.strip():
                return "io: exit status %d after having reported a result" % o.rc
            return None
    if o.rc != 0:
        return "panic: exit status %d: %s" % (o.rc, last_err(o))
    if case["inst"]["kind"] == "model":
        return judge_model(case, o)
    try:
        d = parse(o)
    except ValueError as e:
        return "report: %s" % e
    opt = OPT[case["inst"]["kind"]](case["inst"])
    limit = case["args"].get("timeout", 60)
    return (judge_line(case, d, o, prop == "C17", opt, "inst", case["args"]["solver"], limit)
            or overdue(case, o, d, limit, case["args"].get("threads", case["env"].get("VSIM_CPUS"))))

def judge_timeout(case, o):
    ev = [l for l in o.out.splitlines() if l.strip()]
    ms = case["inst"]["ms"]
    fired = ev.count("exit-action")
    done = ev.count("action-done")
    if o.rc not in (0, 1):
        return "panic: exit status %d: %s" % (o.rc, last_err(o))
    if fired > 1:
        return "timeout: the action at exit ran %d times" % fired
    if o.rc == 0 and fired:
        return "timeout: exit status 0 although the action at exit ran"
    if o.rc == 0 and not done:
        return "timeout: exit status 0 although the action did not finish"
    if o.rc == 1 and not fired:
        return "timeout: exit status 1 without the action at exit"
    if o.rc == 1 and ev and ev[-1] == "partial":
        return "timeout: the action at exit was cut short"
    t = int(o.rep.get("sim_ns", 0))
    if o.rc == 1 and t < ms * 10**6:
        return "timeout: after %d ns while the limit is %d ms" % (t, ms)
    if o.rc == 0 and any(l.startswith("late ") for l in ev):
        return "timeout: " + [l for l in ev if l.startswith("late ")][0]
    return None

# ------------------------------------------------------------------- campaign

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def throttle():
    for _ in range(100):
        m = {}
        for l in open("/proc/meminfo"):
            k, _, v = l.partition(":")
            if k in ("MemTotal", "MemAvailable"):
                m[k] = int(v.split()[0])
        if m.get("MemAvailable", 1) * 10 >= m.get("MemTotal", 1) * 7:
            return
        time.sleep(.02)

def known_of(known, case, v):
    """the known finding that accounts for a violation, if any"""
    text = json.dumps(dict(case, build=case.get("build", "release"))) + " " + v
    return next((t for (r, t) in known if r.search(text)), None)

def worker(prop, first, stride, deadline, cpu, q, stop):
    known = C.known_findings(prop)
    os.environ["HARNESS_CPU"] = str(cpu)
    limits()
    tmp = tempfile.mkdtemp(prefix="vsimcli.")
    st = dict(runs=0, steps=0, switches=0, choices=0, sim_ns=0, threads=0, nontrivial=0, proved=0, timeout=0, failed=0)
    fa, kinds, hashes, samples, strat = {}, {}, set(), [], {}
    inst = set()
    seed, found, kn, todo = first, None, {}, []
    try:
        while time.time() < deadline and not stop.is_set():
            if st["runs"] % 32 == 0:
                throttle()
            # after a known finding: the same case on the repaired program
            case = todo.pop() if todo else gen(prop, seed)
            o = execute(case, tmp)
            v = judge(case, o)
            st["runs"] += 1
            b = case.get("build", "release")
            st["runs_" + b] = st.get("runs_" + b, 0) + 1
            for k in ("steps", "switches", "choices", "sim_ns", "threads"):
                st[k] += int(o.rep.get(k, 0))
            for k, n in o.faults.items():
                fa[k] = fa.get(k, 0) + n
            for k, n in o.rep.items():
                if k.startswith("kind."):
                    kinds[k[5:]] = kinds.get(k[5:], 0) + int(n)
            s = case["env"].get("VSIM_STRATEGY", 0)
            strat[s] = strat.get(s, 0) + 1
            st["proved"] += "Proved" in o.out
            st["timeout"] += "Timeout" in o.out
            st["failed"] += o.rc != 0
            inst.add(hash(json.dumps(case["inst"])))
            nt = int(o.rep.get("switches", 0)) > 2
            st["nontrivial"] += nt
            if nt:
                hashes.add((o.rep.get("sync_hash"), o.out))
            if nt and len(samples) < 1:
                samples.append(dict(seed=seed, case=case, outcome=o.out.strip(), exit=o.rc, steps=o.rep.get("steps"), trace_hash=o.rep.get("hash")))
            if v:
                t = known_of(known, case, v)
                if not t:
                    found = (seed, case, v, o.rep.get("deviations", ""), o.rep.get("hash", ""))
                    break
                kn[t] = kn.get(t, 0) + 1
                if repaired(case["inst"]["kind"]):
                    todo.append(dict(case, build="repaired"))
                    continue
            seed += stride
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        h = [hash(x) for x in hashes]
        q.put((cpu, st, fa, kinds, h, samples, strat, list(inst), seed, kn, found))

def kind_of(v):
    m = re.search(r"panicked at ([^:]*)", v)
    return v.split(":")[0] + ("/" + m.group(1) if m else "")

def minimise(case, v, choices, budget):
    tmp = tempfile.mkdtemp(prefix="vsimcli.")
    t0 = time.time()
    want = kind_of(v)
    known = C.known_findings(case["prop"])

    def attempt(c, ch=None):
        o = execute(c, tmp, ch)
        w = judge(c, o)
        if w and kind_of(w) == want and not known_of(known, c, w):
            return w, o.rep.get("deviations", ""), o.rep.get("hash", "")
        return None

    try:
        progress = True
        while progress and time.time() - t0 < budget * .6:
            progress = False
            cands = [dict(case, inst=x) for x in shrinks(case["inst"])] if case["inst"]["kind"] != "timeout" else []
            for k, d in (("VSIM_EDGE_GAP", None), ("VSIM_SPURIOUS_PPM", None), ("VSIM_CLOCK_JUMP_PPM", None), ("VSIM_SHORT_READ_PPM", None),
                         ("VSIM_EINTR_PPM", None), ("VSIM_STRATEGY", 4)):
                if case["env"].get(k, d) != d:
                    e = dict(case["env"])
                    e.pop(k)
                    if d is not None:
                        e[k] = d
                    cands.append(dict(case, env=e))
            for k, d in (("threads", 1), ("width", None), ("timeout", None)):
                if "argv" in case:
                    break
                if case["args"].get(k, d) != d:
                    a = dict(case["args"])
                    a.pop(k)
                    if d is not None:
                        a[k] = d
                    cands.append(dict(case, args=a))
            for c in cands:
                if time.time() - t0 > budget * .6:
                    break
                for s in range(3):
                    e = dict(c, env=dict(c["env"], VSIM_SEED=c["env"]["VSIM_SEED"] + s))
                    r = attempt(e)
                    if r:
                        case, (v, choices, _) = e, r
                        progress = True
                        break
                if progress:
                    break
        devs = choices.split()
        chunk = max(1, len(devs))
        while devs and chunk >= 1 and time.time() - t0 < budget:
            i, any_ = 0, False
            while i < len(devs) and time.time() - t0 < budget:
                r = attempt(case, " ".join(devs[:i] + devs[i + chunk:]))
                if r:
                    v, d, _ = r
                    devs, any_ = d.split(), True
                else:
                    i += chunk
            if chunk == 1 and not any_:
                break
            chunk = max(1, chunk // 2)
        return case, " ".join(devs)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def write_replay(path, case, choices, h, v):
    with open(path, "w") as f:
        f.write("vsim-replay 1\nengine cli\nproperty %s\ncase %s\nchoices %s\nhash %s\nviolation %s\n"
                % (case["prop"], json.dumps(case, sort_keys=True), choices, h, v))

def run_replay(path):
    d = C.read_replay(path)
    case = json.loads(d["case"])
    tmp = tempfile.mkdtemp(prefix="vsimcli.")
    try:
        o = execute(case, tmp, d.get("choices", ""))
        return case, judge(case, o), o
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

TSPTW = ["cli_tsptw", "cli_tsptw_repaired"]
PSP = ["cli_psp", "cli_psp_repaired", "cli_psp_checked"]
SRFLP = ["cli_srflp", "cli_srflp_repaired", "cli_srflp_checked"]
PACKAGES = dict(C14=TSPTW, C15=PSP, C16=SRFLP, C17=TSPTW + PSP + SRFLP + ["cli_model"], C18=TSPTW + PSP + SRFLP, C19=["cli_timeout"], C22=TSPTW + PSP + SRFLP)

def replay(path):
    d = C.read_replay(path)
    C.build(PACKAGES[d["property"]])
    case, v, o = run_replay(path)
    if v:
        print("  " + v)
        print("VIOLATION property=%s replay=%s" % (case["prop"], path))
        return 1
    print("no violation")
    return 0

def check(prop, tier, seed):
    t0 = time.time()
    bt = C.build(PACKAGES[prop])
    log, found, replayed = [], [], 0
    for p in sorted(glob.glob(os.path.join(C.ROOT, "findings", "*.replay")) + glob.glob(os.path.join(C.ROOT, "corpus", "*.replay"))):
        d = C.read_replay(p)
        if d.get("engine") == "cli" and d.get("property") == prop:
            replayed += 1
            case, v, o = run_replay(p)
            if v:
                found.append((0, case, v, d.get("choices", ""), ""))
    # known findings of the corpus are reported, and do not stop the search
    known, said, hits = C.known_findings(prop), set(), {}

    def finding(t, k=1):
        hits[t] = hits.get(t, 0) + k
        if t not in said:
            print("KNOWN-FINDING: property=%s %s" % (prop, t), flush=True)
            said.add(t)
    for f in list(found):
        t = known_of(known, f[1], f[2])
        if t:
            finding(t)
            found.remove(f)
    n = C.cpus()
    secs = float(os.environ.get("VSIM_SECONDS", 50 if tier == "quick" else 600))
    base = (seed - 1) * 1_000_000_000 + 1
    res, ws = [], []
    if not found:
        os.environ["PYTHONHASHSEED"] = "0"
        ctx = multiprocessing.get_context("fork")
        q, stop = ctx.Queue(), ctx.Event()
        end = time.time() + secs
        ws = [ctx.Process(target=worker, args=(prop, base + i, n, end, i, q, stop)) for i in range(n)]
        for w in ws:
            w.start()
        while len(res) < n and time.time() < end + 120:
            try:
                x = q.get(timeout=1)
            except Exception:
                if not any(w.is_alive() for w in ws) and q.empty():
                    break
                continue
            res.append(x)
            for t, k in x[-2].items():
                finding(t, k)
            if x[-1]:
                found.append(x[-1])
                stop.set()
        for w in ws:
            w.join(5)
            if w.is_alive():
                w.kill()
        if len(res) < n:
            log.append("%d workers gave no answer" % (n - len(res)))
    # report
    violations = 0
    os.makedirs(os.path.join(C.ROOT, "replays"), exist_ok=True)
    seen = set()
    for (sd, case, v, choices, h) in found:
        if kind_of(v) in seen or violations:
            continue
        seen.add(kind_of(v))
        path = os.path.join(C.ROOT, "replays", "%s-%s-%d.replay" % (prop, sd, os.getpid()))
        ok = False
        for (c, ch) in (minimise(case, v, choices, 40 if tier == "quick" else 120), (case, choices)):
            write_replay(path, c, ch, h, v)
            a, b = run_replay(path), run_replay(path)
            if a[1] and a[1] == b[1] and a[2].rep.get("hash") == b[2].rep.get("hash"):
                write_replay(path, c, ch, a[2].rep.get("hash", ""), a[1])
                v, ok = a[1], True
                break
        if not ok:
            log.append("a violation did not reproduce from its replay file: seed %s %s" % (sd, v))
            os.remove(path)
            continue
        t = known_of(known, case, v)
        if t:
            finding(t)
            continue
        print("  " + v)
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        violations += 1
    tot, fa, kinds, strat, hs, inst, samples = {}, {}, {}, {}, set(), set(), []
    for (_, st, f, k, h, sm, sg, ins, _, _, _) in res:
        for a, b in ((tot, st), (fa, f), (kinds, k), (strat, sg)):
            for x, y in b.items():
                a[x] = a.get(x, 0) + y
        hs.update(h)
        inst.update(ins)
        samples += sm
    R = C.RULES
    wall = time.time() - t0
    runs = tot.get("runs", 0)
    cov = dict(
        evaluations=runs + replayed, distinct_nontrivial=len(hs), rule=R["cli_common"] + " " + R["nontrivial"].get(prop, R["cli_nontrivial"]),
        samples=samples[:4] or [dict(case=f[1], violation=f[2]) for f in found[:1]],
        simulated_runs=runs, seeds="%d .. %d" % (base, max([x[8] for x in res] + [base])), runs_per_hour=int(runs / max(secs, 1e-9) * 3600),
        regression_replays=replayed, simulated_seconds=round(tot.get("sim_ns", 0) / 1e9, 3),
        scheduler_steps=tot.get("steps", 0), context_switches=tot.get("switches", 0), scheduling_decisions=tot.get("choices", 0),
        threads_simulated=tot.get("threads", 0), nontrivial_runs=tot.get("nontrivial", 0), distinct_instances=len(inst),
        runs_of_the_program_as_shipped=tot.get("runs_release", 0), runs_of_the_program_with_known_defects_repaired=tot.get("runs_repaired", 0),
        known_findings_met=hits,
        runs_proved=tot.get("proved", 0), runs_timed_out=tot.get("timeout", 0), runs_with_nonzero_exit=tot.get("failed", 0),
        injected_faults=fa, scheduling_points=kinds, runs_per_strategy={R["strategies"][int(k)]: v for k, v in strat.items()},
        interleaving_measure="distinct (hash of the synchronisation events of the run, output) pairs, over all workers",
        real_components=R["cli_real"], stubbed_components=R["cli_stub"], workers=n, build_seconds=round(bt, 1), notes=log)
    C.write_evidence(prop, tier, seed, cov, wall, violations)
    for l in log:
        print("note: " + l)
    print("%s: %d simulated runs, %d distinct non-trivial, %d violations, %.0f s" % (prop, runs, len(hs), violations, wall))
    if runs == 0 and not violations:
        return 2
    return 1 if violations else 0
