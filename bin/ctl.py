"""Threaded parts under a controlled scheduler: recorded executions are checked against the specification by TLC."""
import itertools, random
from vlib import *


def build_ctl(name, srcs, src=None, defs=()):
    """harness/SRC.cpp + harness/sched.cpp + instrumented repository sources"""
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "include", "common"),
           "-I" + os.path.join(BUILD, "lib", "include"), "-I" + os.path.join(BUILD, "lib", "include", "common")]
    fl = ["-DBOOST_AVAILABLE=1", "-DENABLE_RDRAND=1", "-mrdrnd", "-std=c++14", "-O1"]
    jobs = [(os.path.join(REPO, s), "ctl_%s_%s.o" % (name, os.path.basename(s)), ["-fsanitize=thread"]) for s in srcs]
    jobs += [(os.path.join(VERIF, "harness", n + ".cpp"), "ctl_%s_%s.o" % (name, n), ["-D" + x for x in defs]) for n in (src or name, "sched")]

    def comp(j):
        r = run(["g++"] + fl + j[2] + inc + ["-c", j[0], "-o", os.path.join(BUILD, j[1])])
        if r.returncode:
            raise CheckError("%s does not compile:\n%s" % (j[0], r.stdout[-3000:]))
        return os.path.join(BUILD, j[1])
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(comp, jobs))
    exe = os.path.join(BUILD, name)
    r = run(["g++", "-rdynamic", "-o", exe] + objs + [os.path.join(BUILD, "lib", "libqrack.a"), "-ldl", "-lpthread"])
    if r.returncode:
        raise CheckError("harness %s does not link:\n%s" % (name, r.stdout[-3000:]))
    return exe


def run_ctl(exe, progfile, nprog, out, nsched, shard, nshards, deadline):
    """run the programs of one shard; a stuck or crashed execution ends the process, which is restarted behind it"""
    lo, hi = nprog * shard // nshards, nprog * (shard + 1) // nshards
    frm, s, runs, stuck = lo, 0, 0, 0
    while True:
        try:
            r = subprocess.run([exe, progfile, out, str(SEED), str(nsched), str(frm), str(hi), str(s)], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, timeout=max(5, deadline - time.time()))
        except subprocess.TimeoutExpired:
            # every schedule is bounded: only a loop without any synchronisation call or memory access hangs here
            raise CheckError("controlled execution of %s timed out" % exe)
        m = re.search(r"STUCK (\d+) (\d+)", r.stdout)
        d = re.search(r"DONE (\d+) (\d+)", r.stdout)
        if d:
            runs += int(d.group(1))
            return runs, stuck
        if not m:
            raise CheckError("controlled execution of %s ended with rc %d: %s" % (exe, r.returncode, r.stderr[-500:]))
        stuck += 1
        frm, s = int(m.group(1)), int(m.group(2)) + 1
        if stuck > 3:
            return runs, stuck


def validate(mod, files, pool, heap="2g"):
    """TLC over each file of recorded executions: [(file, index, position)] of those the specification rejects"""
    def go(f):
        if not os.path.exists(f) or os.path.getsize(f) == 0:
            return [], (0, 0)
        rc, out = tlc(mod, mod + ".cfg", ["-workers", "1"], env={"TRACES": f}, timeout=700, heap=heap,
                      meta=os.path.join(BUILD, "tlc", mod + "-" + os.path.basename(f)))
        if rc != 0:
            raise CheckError("TLC on %s: rc %d\n%s" % (mod, rc, out[-2000:]))
        return [(f, int(a), int(b)) for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)>>', out)], tlc_stats(out)
    rej, st = [], [0, 0]
    for r, (g, d) in pool.map(go, files):
        rej += r
        st[0] += g
        st[1] += d
    return rej, st


def ev_text(evs, pos):
    return " ".join("%s%d%s" % (e[0], e[1], "" if e[0] != "pr" else "=%d" % e[2]) for e in evs[:pos])


OPS = ["D", "L", "N", "F", "X", "P"]


def work_programs(n, seed):
    rnd = random.Random(seed)
    progs = []
    for cs in ([["D", "F"]], [["L", "X", "F"]], [["D", "D", "F"], ["X"]], [["D", "F"], ["D", "F"]], [["N", "F"]], [["D", "X"]],
               [["L", "D"], ["X", "F"]], [["D", "F", "P"], ["P"]], [["D"], ["F"], ["X"]], [["D", "D", "D", "D"]]):
        for w in (0, 1):
            progs.append({"clients": cs, "wait": w})
    while len(progs) < n:
        nc = rnd.choice([1, 1, 2, 2, 2, 3])
        progs.append({"clients": [[rnd.choice("DDDLNFFXXP") for _ in range(rnd.randint(1, 5 if nc == 1 else 4 if nc == 2 else 3))]
                                  for _ in range(nc)], "wait": rnd.randint(0, 1)})
    return progs[:n]


def work_queue(ctx, bf, pool):
    """C14: client programs against the real queue under controlled schedules; every recorded execution must be a
    behaviour of QWork.tla"""
    bf.result()
    exe = build_ctl("qwork", ["src/common/dispatchqueue.cpp"])
    nprog, nsched = (240, 400) if not ctx.thorough() else (3000, 2000)
    d = os.path.join(BUILD, "ctl")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    pf = os.path.join(d, "programs.jsonl")
    progs = work_programs(nprog, SEED)
    open(pf, "w").write("\n".join(json.dumps(p) for p in progs) + "\n")
    n = 8
    outs = [os.path.join(d, "work-%d.jsonl" % k) for k in range(n)]
    dl = time.time() + (300 if not ctx.thorough() else 1500)
    rs = list(pool.map(lambda k: run_ctl(exe, pf, nprog, outs[k], nsched, k, n, dl), range(n)))
    rej, st = validate("QWorkTrace", outs, pool)
    cache = {f: open(f).read().splitlines() for f in {r[0] for r in rej}}
    rej = sorted(((len(json.loads(cache[f][i - 1])["ev"]), f, i, p) for f, i, p in rej))
    for _, f, i, p in rej[:3]:
        t = json.loads(cache[f][i - 1])
        ctx.violation("C14: this execution of program %s is not a behaviour of the work queue (at its last event): %s" % (
            json.dumps(progs[t["prog"]]), ev_text(t["ev"], p)), {"kind": "qwork", "program": progs[t["prog"]], "trace": t, "at": p})
    ndist = sum(sum(1 for _ in open(f)) for f in outs if os.path.exists(f))
    # the trace specification must be able to reject: corrupted executions
    corrupt(ctx, outs[0], d, pool)
    ctx.states += st[1]
    ctx.transitions += st[0]
    ctx.traces += ndist
    ctx.cov["work_queue"] = {"programs": nprog, "controlled_executions": sum(r[0] for r in rs), "distinct_executions": ndist, "stuck_or_crashed": sum(r[1] for r in rs)}
    if os.path.exists(outs[0]):
        l = open(outs[0]).readline()
        if l:
            ctx.samples.append({"program": progs[json.loads(l)["prog"]], "events": ev_text(json.loads(l)["ev"], 99)})


def corrupt(ctx, f, d, pool):
    """binding check: executions with two task starts exchanged, or a finish return moved before the last task end, must be rejected"""
    bad, want = [], 0
    for l in open(f).read().splitlines()[:400]:
        t = json.loads(l)
        ev = t["ev"]
        ss = [i for i, e in enumerate(ev) if e[0] == "s"]
        if ss:
            e2 = list(ev)
            e2.insert(ss[0], ev[ss[0]])          # a task started twice
            bad.append(dict(t, ev=e2))
        en = [i for i, e in enumerate(ev) if e[0] == "e"]
        fr = [i for i, e in enumerate(ev) if e[0] == "fr"]
        if en and fr:
            fc = [i for i, e in enumerate(ev) if e[0] == "fc" and e[1] == ev[fr[0]][1]][0]
            k = [i for i in en if i > fc and i < fr[0] and ["dr", ev[i][1], 0] in ev[:fc]]
            if k:
                e2 = [e for i, e in enumerate(ev) if i != fr[0]]
                e2.insert(k[0], ev[fr[0]])       # finish returned before a task it waits for ended
                bad.append(dict(t, ev=e2))
    if not bad:
        return
    g = os.path.join(d, "corrupt.jsonl")
    open(g, "w").write("\n".join(json.dumps(b) for b in bad) + "\n")
    rej, _ = validate("QWorkTrace", [g], pool)
    if len(rej) != len(bad):
        raise CheckError("the trace specification accepted %d of %d corrupted executions" % (len(bad) - len(rej), len(bad)))
    ctx.cov["corrupted_executions_rejected"] = len(bad)


def par_loops(ctx, bf, pool):
    """C15: cases from QPar.tla run by the real loops under controlled schedules"""
    bf.result()
    num, shards, nsched = (600, 4, 60) if not ctx.thorough() else (4000, 8, 400)
    gens = [pool.submit(gen, "cases", 1, SEED, depth=num, shard=k, mod="QParGen", cfg="QParGen.cfg") for k in range(shards)]
    exe = build_ctl("qpar", ["src/common/parallel_for.cpp"])

    def go(g):
        f, st = g.result()
        return f, st, replay(exe, lambda fr: [f, SEED, nsched, fr, 3], st["traces"], maxfail=3, timeout=700 if not ctx.thorough() else 3000)
    runs = loops = 0
    for f, st, (fails, stats) in pool.map(go, gens):
        lines = open(f).read().splitlines()
        for i, txt in fails[:3]:
            if len(ctx.viol) < 4:
                c = json.loads(lines[i])
                ctx.violation("C15: loop %s with parameters %s, sets %s %s, chunk 2^%d, %d threads: %s" % (
                    c["f"], c["k"], c["lo"], c["hi"], c["sp"], c["cores"], txt), {"kind": "qpar", "case": c, "why": txt})
        ctx.states += st["states"]
        loops += st["traces"]
        runs += stats.get("ok", 0)
        ctx.transitions += stats.get("steps", 0)
        if len(ctx.samples) < 3:
            c = json.loads(lines[0])
            ctx.samples.append({k: c[k] for k in ("f", "k", "lo", "hi", "sp", "cores")})
    ctx.traces += runs
    ctx.cov["parallel_loops"] = {"cases": loops, "controlled_executions": runs}


def async_engine(ctx, stacks, profs, num, nmax=4, shards=1):
    """behaviours of the specification replayed with the simulator's threads under the controlled scheduler"""
    import check

    class EF:
        exe = None

        def result(self):
            if EF.exe is None:
                EF.exe = build_ctl("qreplayc", ["src/common/dispatchqueue.cpp", "src/common/parallel_for.cpp"], "qreplay", ["CTL"])
            return {"qreplay": EF.exe}
    m = 6 if ctx.thorough() else 1
    check.run_replays(ctx, [(p, stacks, "mix", shards * m, num, 1, nmax, 20, {"MOD2": "1"}, "Gen") for p in profs], EF(), pool_of(ctx))


def pool_of(ctx):
    return cf.ThreadPoolExecutor(8)


def work_engine(ctx, bf, pool):
    bf.result()
    async_engine(ctx, ["cpu:t6", "cpu:t2", "unit+cpu:t5", "pager+cpu:p1:t5"], ["gates", "struct", "meas", "clone", "query", "unitm"], 200, shards=2)


def par_engine(ctx, bf, pool):
    bf.result()
    async_engine(ctx, ["cpu:t1", "cpu:s:t1", "unit+cpu:t2"], ["gates", "struct", "meas", "query", "alu", "mul", "inc"], 150, nmax=5)
