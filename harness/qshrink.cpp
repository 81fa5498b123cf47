// Development aid: shrink a failing behaviour, using the CPU engine (which is checked against the specification) as the
// reference.  qshrink STACK FILE IDX MODE(0 end, 1 clone each step, 2 direct each step) [REPS]
#include "ops.hpp"
#include <cstdio>
#include <fstream>
#include <sys/wait.h>
#include <unistd.h>

static Stack st, ref;
static int mode, reps;

static bool same(QInterfacePtr a, QInterfacePtr b)
{
    if (a->GetQubitCount() != b->GetQubitCount())
        return false;
    if (!a->GetQubitCount())
        return true;
    Vec g = stateOf(a);
    return dist(g, stateOf(b->Clone()), false) <= 3e-3;
}
// 0 fine, 1 differs
static int once(const std::vector<js::V>& steps, uint32_t seed, bool verbose)
{
    QInterfacePtr s[2], r[2];
    qrack_rand_gen_ptr rng = std::make_shared<qrack_rand_gen>(seed);
    for (auto& stp : steps) {
        const int ri = (int)stp["r"].i();
        OpV op(stp["op"]);
        std::string err;
        try {
            if (op.o == "New") {
                s[ri] = mk(st, (bitLenInt)op.k[0], op.k[1], rng);
                r[ri] = mk(ref, (bitLenInt)op.k[0], op.k[1], rng);
                continue;
            }
            if (!s[ri] || !r[ri])
                continue;
            if (op.o == "Clone") {
                s[op.k[0]] = s[ri]->Clone();
                r[op.k[0]] = r[ri]->Clone();
                continue;
            }
            if (op.o == "Compose") {
                if (!s[op.k[0]])
                    continue;
                if (op.k[1] > r[ri]->GetQubitCount()) continue;
                if (op.k[1] == r[ri]->GetQubitCount()) { s[ri]->Compose(s[op.k[0]]); r[ri]->Compose(r[op.k[0]]); }
                else { s[ri]->Compose(s[op.k[0]], op.k[1]); r[ri]->Compose(r[op.k[0]], op.k[1]); }
                continue;
            }
            if (op.o == "Decompose") {
                QInterfacePtr t = r[ri]->Clone();
                QInterfacePtr d = mk(ref, op.k[2], 0, rng);
                if (!t->TryDecompose(op.k[1], d, 1e-4f)) continue;
                r[ri]->Decompose(op.k[1], (r[op.k[0]] = mk(ref, op.k[2], 0, rng)));
                s[ri]->Decompose(op.k[1], (s[op.k[0]] = mk(st, op.k[2], 0, rng)));
                continue;
            }
        } catch (const std::exception& e) {
            err = e.what();
            if (verbose) printf("   exception in %s: %s\n", op.str().c_str(), err.c_str());
            return 1;
        }
        if (op.o[0] == 'Q' && op.o != "QFT" && op.o != "QFTR") {
            if (op.o == "QMultiShot")
                continue;
            std::vector<double> a = queryVals(s[ri], op, 0), b = queryVals(r[ri], op, 0);
            for (size_t i = 0; i < a.size(); ++i)
                if (!(std::abs(a[i] - b[i]) < 0.02)) {
                    if (verbose)
                        printf("   query %s: got [%d] %f want %f\n", op.str().c_str(), (int)i, a[i], b[i]);
                    return 1;
                }
            continue;
        }
        QInterfacePtr rb = r[ri]->Clone();
        bool refThrew = false, sThrew = false, ok = false;
        long long v = -1;
        try {
            v = applyOp(s[ri], op, false, 0);
        } catch (const std::exception& e) {
            sThrew = true;
            err = e.what();
        }
        long long rv = -1;
        for (int t = 0; t < 30 && !ok && !refThrew; ++t) {
            r[ri] = rb->Clone();
            try {
                rv = applyOp(r[ri], op, false, 0);
            } catch (const std::exception& e) {
                refThrew = true;
                r[ri] = rb;
                break;
            }
            if (rv != v)
                continue;
            if (!mode && stp.has("alts") && stp["alts"].size() == 1 && op.o != "M") {
                ok = true;
                break;
            }
            if (sThrew || (s[ri]->Clone(), same(s[ri]->Clone(), r[ri])))
                ok = true;
        }
        if (sThrew != refThrew) {
            if (verbose) printf("   exception in %s: s=%d r=%d %s\n", op.str().c_str(), sThrew, refThrew, err.c_str());
            return 1;
        }
        if (sThrew)
            return 0;
        if (!ok && mode) {
            if (verbose) printf("   after %s: got %d %s  v %lld / %lld ref %s\n", op.str().c_str(), 0, show(stateOf(s[ri]->Clone())).c_str(), v, rv, show(stateOf(r[ri]->Clone())).c_str());
            return 1;
        }
        if (!ok) {
            // keep going: the end comparison decides (the clone may be at fault)
        }
        if (mode == 2)
            for (int i = 0; i < 2; ++i)
                if (s[i] && !same(s[i], r[i])) {
                    if (verbose) printf("   after %s slot %d: got %s ref %s\n", op.str().c_str(), i, show(stateOf(s[i])).c_str(), show(stateOf(r[i])).c_str());
                    return 1;
                }
    }
    for (int i = 0; i < 2; ++i)
        if (s[i] && !same(s[i], r[i])) {
            if (verbose) printf("   end slot %d: got %s ref %s\n", i, show(stateOf(s[i])).c_str(), show(stateOf(r[i])).c_str());
            return 1;
        }
    return 0;
}
static bool fails(const std::vector<js::V>& steps, bool verbose)
{
    fflush(stdout);
    pid_t p = fork();
    if (!p) {
        alarm(60);
        int bad = 0;
        for (int i = 0; i < reps; ++i)
            if (once(steps, 1000 + i, verbose)) {
                bad = 1;
                break;
            }
        fflush(stdout);
        _exit(bad);
    }
    int w;
    waitpid(p, &w, 0);
    if (verbose && WIFSIGNALED(w)) printf("   SIGNAL %d\n", WTERMSIG(w));
    return !(WIFEXITED(w) && WEXITSTATUS(w) == 0);
}
int main(int argc, char** argv)
{
    st = stackOf(argv[1]);
    ref = stackOf("cpu");
    std::ifstream f(argv[2]);
    int idx = atoi(argv[3]);
    mode = atoi(argv[4]);
    reps = argc > 5 ? atoi(argv[5]) : 4;
    std::string line;
    for (int i = 0; i <= idx; ++i)
        std::getline(f, line);
    js::V tr = js::parse(line);
    std::vector<js::V> steps = tr["steps"].a;
    if (!fails(steps, true)) {
        printf("does not fail\n");
        return 0;
    }
    // cut the tail
    for (size_t n = 1; n <= steps.size(); ++n) {
        std::vector<js::V> c(steps.begin(), steps.begin() + n);
        if (fails(c, false)) { steps = c; break; }
    }
    bool again = true;
    while (again) {
        again = false;
        for (size_t i = steps.size(); i-- > 0;) {
            std::vector<js::V> c = steps;
            c.erase(c.begin() + i);
            if (fails(c, false)) { steps = c; again = true; }
        }
    }
    for (auto& s : steps)
        printf("r%d %s\n", (int)s["r"].i(), OpV(s["op"]).str().c_str());
    fails(steps, true);
    return 0;
}
