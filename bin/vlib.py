"""Common machinery of the checks: build the library and harnesses from /repo's working tree, run TLC on the
specifications, replay the behaviours against the implementation, report."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NCPU = os.cpu_count() or 4
GUARD = "QRACK_VERIF"


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------------------------------- build
LIBTARGETS = {"lib": ["qrack"], "pinvoke": ["qrack", "qrack_pinvoke"]}


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_lib(kind="lib"):
    d = os.path.join(BUILD, "lib")
    os.makedirs(d, exist_ok=True)
    env = dict(os.environ, CC="gcc", CXX="g++", LC_ALL="C.UTF-8")
    r = run(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release", "-DENABLE_OPENCL=OFF",
             "-DENABLE_CUDA=OFF", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON"], env=env)
    if r.returncode:
        raise CheckError("cmake failed:\n" + r.stdout[-3000:])
    r = run(["ninja", "-C", d] + LIBTARGETS[kind], env=env)
    if r.returncode:
        raise CheckError("build of the library failed:\n" + r.stdout[-3000:])
    return d


CXXFLAGS = ["-DBOOST_AVAILABLE=1", "-DENABLE_RDRAND=1", "-std=c++14", "-mrdrnd", "-O1"]


def build_harness(names, kind="lib", flags=(), defs=()):
    """Compile harness objects while the library builds, then link."""
    os.makedirs(BUILD, exist_ok=True)
    cfg = os.path.join(BUILD, "lib", "include", "common", "config.h")
    with cf.ThreadPoolExecutor(8) as ex:
        lib = ex.submit(build_lib, kind)
        t0 = time.time()
        while not os.path.exists(cfg) and not lib.done() and time.time() - t0 < 60:
            time.sleep(0.1)

        def comp(n):
            src = os.path.join(VERIF, "harness", n + ".cpp")
            obj = os.path.join(BUILD, n + ".o")
            inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "include", "common"),
                   "-I" + os.path.join(BUILD, "lib", "include"), "-I" + os.path.join(BUILD, "lib", "include", "common")]
            r = run(["g++"] + CXXFLAGS + list(flags) + ["-D" + x for x in defs] + inc + ["-c", src, "-o", obj])
            if r.returncode:
                raise CheckError("harness %s does not compile:\n%s" % (n, r.stdout[-3000:]))
            return obj
        objs = list(ex.map(comp, names))
        lib.result()
    out = {}
    for n, o in zip(names, objs):
        exe = os.path.join(BUILD, n)
        ld = os.path.join(BUILD, "lib")
        libs = ["-L" + ld, "-lqrack_pinvoke", "-Wl,-rpath," + ld] if n == "qpinv" else [os.path.join(ld, "libqrack.a")]
        r = run(["g++", "-o", exe, o] + libs + ["-lpthread", "-ldl"])
        if r.returncode:
            raise CheckError("harness %s does not link:\n%s" % (n, r.stdout[-3000:]))
        out[n] = exe
    return out


# ------------------------------------------------------------------------------------------- TLC
def spec_hash():
    h = hashlib.sha256()
    for f in sorted(os.listdir(SPEC)):
        if f.endswith(".tla") or f.endswith(".cfg"):
            h.update(open(os.path.join(SPEC, f), "rb").read())
    return h.hexdigest()[:16]


def tlc_cmd(args, heap="2g"):
    return ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4", "-cp", JAR, "tlc2.TLC"] + args


def tlc(mod, cfg, args=(), env=None, timeout=600, heap="2g", meta=None):
    meta = meta or os.path.join(BUILD, "tlc", "%s-%s-%d" % (mod, cfg, os.getpid()))
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(tlc_cmd(["-metadir", meta, "-config", cfg, "-noGenerateSpecTE"] + list(args) + [mod + ".tla"], heap),
                           cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise CheckError("TLC timeout on %s/%s" % (mod, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def tlc_stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        return int(m.group(1)), int(m.group(2))
    m = re.search(r"(\d+) states checked", out.replace(",", ""))
    return (int(m.group(1)), 0) if m else (0, 0)


def json_lines(out):
    res = []
    for l in out.splitlines():
        if l.startswith('"{'):
            res.append(json.loads(l))        # TLA string literal == JSON string literal here
    return res


def gen(profile, num, seed, nmin=1, nmax=4, depth=20, shard=0, mod="Gen", cfg="Gen.cfg", env=None):
    """Behaviours of the specification, as a file with one JSON trace per line."""
    key = "%s-%s-%d-%d-%d-%d-%d-%d-%s" % (mod, profile, num, seed, nmin, nmax, depth, shard, spec_hash())
    if env:
        key += "-" + "-".join("%s_%s" % kv for kv in sorted(env.items()))
    d = os.path.join(BUILD, "traces")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, key + ".jsonl")
    st = f + ".stat"
    if os.path.exists(f) and os.path.exists(st):
        return f, json.load(open(st))
    e = dict(env or {}, PROFILE=profile, NMIN=str(nmin), NMAX=str(nmax), DEPTH=str(depth))
    t0 = time.time()
    for attempt in range(3):        # (a JVM was once seen to hang; a run takes seconds)
        try:
            rc, out = tlc(mod, cfg, ["-simulate", "num=%d" % num, "-seed", str(seed * 1000 + shard), "-workers", "1",
                                     "-depth", str(depth + 10)], env=e, timeout=(120, 200, 400)[attempt] if num <= 500 else 800,
                          meta=os.path.join(BUILD, "tlc", key))
            break
        except CheckError:
            if attempt == 2:
                raise
    if rc != 0:
        bad = [l for l in out.splitlines() if not l.startswith('"{')]
        err = [l for l in bad if "rror" in l or "verflow" in l or "ttempted" in l][:10]
        raise CheckError("TLC failed on %s/%s (rc %d):\n%s" % (mod, profile, rc, "\n".join(err + bad[-12:])))
    lines = json_lines(out)
    gen_, dist_ = tlc_stats(out)
    with open(f + ".tmp", "w") as h:
        h.write("\n".join(lines) + ("\n" if lines else ""))
    os.rename(f + ".tmp", f)
    stat = {"traces": len(lines), "states": gen_, "secs": round(time.time() - t0, 1)}
    json.dump(stat, open(st, "w"))
    return f, stat


# ------------------------------------------------------------------------------------------- replay
def replay(exe, args_of_from, ntraces, timeout=300, env=None, maxfail=5):
    """Run a replay harness over a trace file, restarting behind a trace that kills it.
    args_of_from(from) gives the argument list.  Returns (failures [(idx, text)], stats)."""
    fails, stats, unsup = [], {}, {}
    frm, deadline = 0, time.time() + timeout
    while frm < ntraces and len(fails) < maxfail:
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run([exe] + [str(a) for a in args_of_from(frm)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, errors="replace", env=e, timeout=max(5, deadline - time.time()))
            out, err, rc = r.stdout, r.stderr, r.returncode
        except subprocess.TimeoutExpired as x:
            raise CheckError("replay timed out: %s" % exe)
        last, done = frm - 1, False
        for l in out.splitlines():
            if l.startswith("@"):
                last = int(l[1:])
            elif l.startswith("FAIL "):
                m = re.match(r"FAIL (\d+) \| (.*)", l)
                fails.append((int(m.group(1)), m.group(2)))
            elif l.startswith("STAT "):
                for k, v in json.loads(l[5:]).items():
                    stats[k] = stats.get(k, 0) + v
            elif l.startswith("UNSUP "):
                k, v = l[6:].rsplit(" ", 1)
                unsup[k] = unsup.get(k, 0) + int(v)
            elif l == "DONE":
                done = True
        if done:
            break
        sig = [l for l in out.splitlines() if l.startswith("SIGNAL")]
        fails.append((last, "process died (rc %d) %s %s" % (rc, " ".join(sig), err.strip()[-300:])))
        frm = last + 1
    stats["unsup"] = unsup
    return fails, stats
