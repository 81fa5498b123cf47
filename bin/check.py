#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current working tree.
exit 0: held on everything explored; 1: VIOLATION line(s) printed; 2: the check itself failed."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
from table import TABLE
import table, traceback


HARNESS = {"Gen": "qreplay", "SaveGen": "qreplay", "SeedGen": "qseed", "PinvGen": "qpinv"}      # which harness replays the behaviours of which module


def known_traces(prop):
    """known_findings.txt: 'known: property=ID trace=FILE stack=S mode=M match=<substring> :: what fails'"""
    res = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) trace=(\S+) stack=(\S+) mode=(\S+) match=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append(m.groups()[1:])
    return res


class Ctx:
    """Collects what a check did."""
    def __init__(self, prop, tier):
        self.prop, self.tier, self.seed = prop, tier, SEED
        self.states = self.transitions = self.traces = 0
        self.samples, self.viol, self.notes, self.assume = [], [], [], []
        self.cov = {}
        self.t0 = time.time()

    def thorough(self):
        return self.tier == "thorough"

    def violation(self, what, replay):
        """replay: dict written out as the replay file"""
        d = os.path.join(BUILD, "replays")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "%s-%d.json" % (self.prop, len(self.viol)))
        json.dump(dict(replay, property=self.prop, what=what), open(f, "w"))
        self.viol.append(f)
        log("  " + what[:1500])
        log("VIOLATION property=%s replay=%s" % (self.prop, f))

    def known(self, what):
        log("KNOWN-FINDING: property=%s %s" % (self.prop, what))


def one_trace(exe, stack, line, mode, seed, idx, skip=(), timeout=120):
    """re-run one behaviour alone, with the same random numbers"""
    d = os.path.join(BUILD, "one")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, hashlib.sha256((line + stack).encode()).hexdigest()[:16] + ".jsonl")
    open(f, "w").write(line + "\n")
    fails, _ = replay(exe, lambda fr: [stack, f, mode, seed, fr, 1] + list(skip), 1, env={"QR_IDX": str(idx)},
                      timeout=timeout, maxfail=1)
    os.unlink(f)
    return fails


def summary(line):
    t = json.loads(line)
    return [s["op"]["o"] + "".join(str(x) for x in ("q", s["op"]["q"], "c", s["op"]["c"], "k", s["op"]["k"])) for s in t["steps"]][:12]


def run_replays(ctx, jobs, exe_future, pool):
    """jobs: [(profile, stacks, mode, shards, num, nmin, nmax, depth, env, spec module)]"""
    tasks = []
    for j in jobs:
        prof, stacks, mode, shards, num, nmin, nmax, depth, env, mod = j
        for sh in range(shards):
            tasks.append((prof, stacks, mode, num, nmin, nmax, depth, env, sh, mod))
    # TLC generation first (the library is being built at the same time)
    gens = [pool.submit(gen, t[0], t[3], SEED, t[4], t[5], t[6], t[8], mod=t[9], cfg=t[9] + ".cfg", env=t[7]) for t in tasks]
    exes = exe_future.result()
    maxf = 3

    def rep(t, g, stack):
        f, st = g.result()
        mode = t[2]
        exe = exes[HARNESS[t[9]]]
        fails, stats = replay(exe, lambda fr: [stack, f, mode, SEED, fr, maxf], st["traces"], maxfail=maxf,
                              timeout=840 if not ctx.thorough() else 3000)
        real = []
        lines = None
        for i, txt in fails:
            lines = lines or open(f).read().splitlines()
            again = one_trace(exe, stack, lines[i], mode, SEED, i)
            if again:
                real.append((i, txt, lines[i]))
            else:
                stats["unrepeated"] = stats.get("unrepeated", 0) + 1
        return real, stats
    futs = []
    for g in gens:
        g.result()
    futs = [(t, s, pool.submit(rep, t, g, s)) for t, g in zip(tasks, gens) for s in t[1]]
    for t, g in zip(tasks, gens):
        f, st = g.result()
        ctx.states += st["states"]
        if len(ctx.samples) < 4 and t[8] == 0:
            l = open(f).readline()
            if l:
                ctx.samples.append({"profile": t[0], "behaviour": summary(l)})
    tot = {}
    bystack = {}
    nrep = 0
    for t, s, fu in futs:
        real, stats = fu.result()
        uns = stats.pop("unsup", {})
        for k, v in stats.items():
            tot[k] = tot.get(k, 0) + v
        b = bystack.setdefault(s, {"steps": 0, "traces": 0, "unsupported": {}})
        b["steps"] += stats.get("steps", 0)
        b["traces"] += stats.get("ok", 0)
        for k, v in uns.items():
            b["unsupported"][k] = b["unsupported"].get(k, 0) + v
        for i, txt, line in real:
            nrep += 1
            if nrep <= 6:
                ctx.violation("%s on stack %s, profile %s behaviour %d: %s" % (ctx.prop, s, t[0], i, txt),
                              {"kind": HARNESS[t[9]], "stack": s, "mode": t[2], "seed": SEED, "idx": i, "trace": json.loads(line)})
    ctx.transitions += tot.get("steps", 0)
    ctx.traces += tot.get("ok", 0)
    ctx.cov["replay"] = tot
    ctx.cov["stacks"] = bystack
    if tot and tot.get("ok", 0) == 0 and not ctx.viol:
        raise CheckError("no behaviour was validated")
    # vacuity: a share of unsupported traces means the binding lost an operation
    return exes


def run_known(ctx, exes):
    exe = exes.get("qreplay")
    for trace, stack, mode, match, what in known_traces(ctx.prop):
        for ln, l in enumerate(open(os.path.join(VERIF, trace)).read().splitlines()):
            fails = one_trace(exe, stack, l, mode, 1, 0)
            if fails and re.search(match, fails[0][1]):
                ctx.known(what)
            elif fails:
                ctx.violation("known-finding trace %s fails differently: %s" % (trace, fails[0][1]),
                              {"kind": "qreplay", "stack": stack, "mode": mode, "seed": 1, "idx": 0, "trace": json.loads(l)})
            else:
                log("note: listed finding no longer reproduces: " + what)


def run_mc(ctx, mcs, pool):
    """Exhaustive TLC runs: the invariants of the specification itself."""
    def go(m):
        mod, cfg, env, heap = (list(m) + [None, None, None])[:4]
        rc, out = tlc(mod, cfg, ["-workers", "2"], env=env, timeout=840 if not ctx.thorough() else 3000, heap=heap or "3g",
                      meta=os.path.join(BUILD, "tlc", "mc-%s-%s-%s" % (mod, cfg, abs(hash(str(env))))))
        if rc != 0:
            raise CheckError("TLC on %s/%s: rc %d\n%s" % (mod, cfg, rc, out[-3000:]))
        return mod, cfg, tlc_stats(out)
    return [pool.submit(go, m) for m in mcs]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ctx = Ctx(prop, tier)
    ent = TABLE[prop]
    pool = cf.ThreadPoolExecutor(8)
    aux = cf.ThreadPoolExecutor(2)
    jobs = ent.get("jobs", lambda c: [])(ctx)
    harn = list(ent.get("harness", []))
    for j in jobs:
        if HARNESS[j[9]] not in harn:
            harn.append(HARNESS[j[9]])
    kind = ent.get("lib", "pinvoke" if "qpinv" in harn else "lib")
    bf = aux.submit(build_harness, harn, kind)
    mcf = run_mc(ctx, ent.get("mc", lambda c: [])(ctx), pool)
    if jobs:
        run_known(ctx, run_replays(ctx, jobs, bf, pool))
    for f in ent.get("extra", []):
        f(ctx, bf, pool)
    mcc = []
    for f in mcf:
        mod, cfg, (g, d) = f.result()
        ctx.states += d
        ctx.transitions += g
        mcc.append({"module": mod, "cfg": cfg, "generated": g, "distinct": d})
    if mcc:
        ctx.cov["exhaustive_spec_checks"] = mcc
    ev = {"property": prop, "tier": ctx.tier, "seed": SEED, "level": ent.get("level", "model_checking"),
          "coverage": dict(ctx.cov, states=ctx.states, transitions=ctx.transitions,
                           traces_validated_against_impl=ctx.traces, samples=ctx.samples or ["none"]),
          "assumptions": ent.get("assumptions", []) + ctx.assume,
          "wall_s": round(time.time() - ctx.t0, 1), "violations": len(ctx.viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    log("%s %s: states %d, transitions %d, traces validated %d, violations %d, %.0f s" % (
        prop, ctx.tier, ctx.states, ctx.transitions, ctx.traces, len(ctx.viol), time.time() - ctx.t0))
    return 1 if ctx.viol else 0


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        log("CHECK ERROR: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
