// Replays behaviours of the specification (QRack.tla) against an implementation stack and checks that every
// observation is one the specification admits.
#include "ops.hpp"
#include <csignal>
#include <cstdio>
#include <fstream>
#include <unistd.h>

static double TOL = 3e-3;
static long nSteps = 0, nCmp = 0, nQuery = 0, nAbandoned = 0, nUnsup = 0, nRefused = 0, nSkipped = 0;
static std::map<std::string, long> unsupBy;
static std::string curInfo;
static std::vector<std::string> skipOps;

struct Viol : std::runtime_error {
    Viol(const std::string& s)
        : std::runtime_error(s)
    {
    }
};
struct Abandon {};

struct Alt {
    long long v;
    size_t n;
    Vec p;
};
static Alt altOf(const js::V& a) { return Alt{ a["v"].i(), (size_t)a["n"].i(), vec(a["p"]) }; }

struct Slot {
    QInterfacePtr r;
    Vec exp;
    size_t n = 0;
    bool ph = true;
};

static bool matches(QInterfacePtr r, const Alt& a, bool exact, double* dOut = nullptr, Vec* gOut = nullptr)
{
    if ((size_t)r->GetQubitCount() != a.n)
        return false;
    Vec g = stateOf(r);
    const double d = dist(g, a.p, exact);
    if (dOut)
        *dOut = d;
    if (gOut)
        *gOut = g;
    ++nCmp;
    return d <= TOL;
}
static void checkSlot(const Slot& s, bool viaClone, bool exact, const char* what, int si)
{
    QInterfacePtr r = viaClone ? s.r->Clone() : s.r;
    if ((size_t)r->GetQubitCount() != s.n)
        throw Viol(std::string(what) + " slot " + std::to_string(si) + ": qubit count " +
            std::to_string((int)r->GetQubitCount()) + " want " + std::to_string(s.n));
    if (r->GetMaxQPower() != pow2((bitLenInt)s.n))
        throw Viol(std::string(what) + ": GetMaxQPower disagrees with the qubit count");
    // single-qubit probabilities are often answered from caches: ask for them on some of the states, and in either order
    const long turn = nCmp % 4;
    auto probs = [&]() {
        for (size_t q = 0; q < s.n; ++q) {
            double w = 0;
            for (size_t i = 0; i < s.exp.size(); ++i)
                if ((i >> q) & 1U)
                    w += std::norm(s.exp[i]);
            const double p = r->Prob((bitLenInt)q);
            if (!(std::abs(p - w) <= TOL))
                throw Viol(std::string(what) + " slot " + std::to_string(si) + ": Prob(" + std::to_string(q) + ")=" +
                    std::to_string(p) + " want " + std::to_string(w));
        }
    };
    if (turn == 1)
        probs();
    Vec g = stateOf(r);
    ++nCmp;
    const double d = dist(g, s.exp, exact && s.ph);
    if (d > TOL)
        throw Viol(std::string(what) + " slot " + std::to_string(si) + ": state differs by " + std::to_string(d) +
            " got " + show(g) + " want " + show(s.exp));
    if (turn == 3)
        probs();
}

static void near_(double got, double want, const std::string& what, double tol)
{
    ++nQuery;
    if (!(std::abs(got - want) <= tol))
        throw Viol(what + ": got " + std::to_string(got) + " want " + std::to_string(want));
}

static void query(Slot& s, const OpV& op, const js::V& vals, uint32_t h)
{
    const std::string o = op.o.substr(1);
    const auto& k = op.k;
    std::vector<double> v;
    for (auto& x : vals.a)
        v.push_back(surd(x));
    const std::string w = op.str();
    const double T = TOL;
    auto frac = [&](size_t i) { return v[i] / v[0]; };
    std::vector<double> got = queryVals(s.r, op, h);
    if (o == "MultiShot") {
        long tot = 0;
        for (size_t i = 0; i + 1 < got.size(); i += 2) {
            const long long out = (long long)got[i];
            if (out < 0 || (size_t)out + 1 >= v.size())
                throw Viol(w + ": outcome out of range " + std::to_string(out));
            if (got[i + 1] > 0 && frac((size_t)out + 1) < 1e-7)
                throw Viol(w + ": impossible outcome " + std::to_string(out));
            tot += (long)got[i + 1];
        }
        ++nQuery;
        if (tot != (long)k[0])
            throw Viol(w + ": shots reported " + std::to_string(tot));
        return;
    }
    if (o == "Fidelity")
        return near_(got[0], v[1] > 0 ? 0 : std::pow(0.75, v[0]), w, 1e-5);
    if (o == "GetAmp")
        return near_(got[0], std::abs(s.exp[(size_t)k[0]]), w, T);
    auto mean = [&]() { return v[1] / v[0]; };
    auto var = [&]() { return v[2] / v[0] - (v[1] / v[0]) * (v[1] / v[0]); };
    if (o == "CProb" || o == "ACProb") {
        if (v[0] > 1e-9)
            near_(got[0], frac(1), w, T);
        return;
    }
    if (o == "ExpPauli")
        return near_(got[0], mean(), w, T);
    if (o == "VarPauli")
        return near_(got[0], 1 - mean() * mean(), w, 2 * T);
    if (o.substr(0, 3) == "Exp")
        return near_(got[0], mean(), w, T * (1 + std::abs(mean())));
    if (o.substr(0, 3) == "Var")
        return near_(got[0], var(), w, 2 * T * (1 + v[2] / v[0]));
    if (got.size() + 1 != v.size())
        throw std::runtime_error("harness: query " + o + " value count");
    for (size_t i = 0; i < got.size(); ++i)
        near_(got[i], frac(i + 1), w + "[" + std::to_string(i) + "]", T);
}

// the gate of a circuit-building step
static void appendGate(QCircuitPtr c, const OpV& op, uint32_t h)
{
    const std::string o = op.o.substr(1);
    std::set<bitLenInt> ctl(op.c.begin(), op.c.end());
    if (o == "Mtrx") {
        c->AppendGate(std::make_shared<QCircuitGate>(op.q[0], op.g(0).m));
    } else if (o == "UCMtrx") {
        c->AppendGate(std::make_shared<QCircuitGate>(op.q[0], op.g(0).m, ctl, B(op.k[0])));
    } else if (o == "UCSB") {
        std::map<bitCapInt, std::shared_ptr<complex>> pl;
        for (long long key : op.k) {
            M2 m = op.g((size_t)key);
            std::shared_ptr<complex> p(new complex[4], std::default_delete<complex[]>());
            std::copy(m.m, m.m + 4, p.get());
            pl[B(key)] = p;
        }
        c->AppendGate(std::make_shared<QCircuitGate>(op.q[0], pl, ctl));
    } else if (o == "Swap") {
        if (op.k[0])
            c->Swap(op.q[0], op.q[1]);
        else
            c->AppendGate(std::make_shared<QCircuitGate>(op.q[0], op.q[1]));
    } else if (o == "INC") {
        c->INC(B(op.k[0]), (bitLenInt)op.k[1], (bitLenInt)op.k[2]);
    } else {
        throw std::runtime_error("harness: circuit gate " + o);
    }
}
// reduced density matrix of the qubits in mask
static std::vector<cd> rdm(const Vec& v, size_t n, size_t mask)
{
    std::vector<size_t> q;
    for (size_t i = 0; i < n; ++i)
        if ((mask >> i) & 1)
            q.push_back(i);
    const size_t D = (size_t)1 << q.size();
    std::vector<cd> r(D * D);
    auto key = [&](size_t i) {
        size_t x = 0;
        for (size_t j = 0; j < q.size(); ++j)
            x |= ((i >> q[j]) & 1) << j;
        return x;
    };
    double nrm = 0;
    for (size_t a = 0; a < v.size(); ++a)
        nrm += std::norm(v[a]);
    for (size_t a = 0; a < v.size(); ++a)
        for (size_t b = 0; b < v.size(); ++b)
            if ((a & ~mask) == (b & ~mask))
                r[key(a) * D + key(b)] += v[a] * std::conj(v[b]) / nrm;
    return r;
}

static uint32_t mix(uint32_t x)
{
    x ^= x >> 16;
    x *= 0x7feb352dU;
    x ^= x >> 15;
    x *= 0x846ca68bU;
    x ^= x >> 16;
    return x;
}

// saved states
struct Saved {
    bool text = false;
    std::string str;
    Vec amps;
    size_t n = 0;
};
static long nText = 0, nAmps = 0;
template <class T> static bool putText(QInterfacePtr r, std::string& s)
{
    auto t = std::dynamic_pointer_cast<T>(r);
    if (!t)
        return false;
    std::ostringstream o;
    o.precision(36);
    o << t;
    s = o.str();
    return true;
}
template <class T> static bool getText(QInterfacePtr r, const std::string& s)
{
    auto t = std::dynamic_pointer_cast<T>(r);
    if (!t)
        return false;
    std::istringstream i(s);
    i >> t;
    if (i.fail())
        throw Viol("the saved text does not read back");
    return true;
}
static void save(Saved& f, QInterfacePtr r, bool text, bool cliff)
{
    f.n = r->GetQubitCount();
    f.text = false;
    if (text || cliff) {
        try {
            f.text = putText<QStabilizer>(r, f.str) || putText<QUnitClifford>(r, f.str) || putText<QStabilizerHybrid>(r, f.str);
        } catch (const std::logic_error& e) {
            if (cliff || r->isClifford())
                throw Viol(std::string("writing a Clifford state failed: ") + e.what());
        }
    }
    f.amps = stateOf(r);
}
static QInterfacePtr load(const Saved& f, QInterfacePtr old, bool inPlace, long perm, const Stack& st, qrack_rand_gen_ptr rng)
{
    QInterfacePtr r = (inPlace && old) ? old : nullptr;
    if (f.text) {
        if (!r)
            r = mk(st, (perm & 1) ? (bitLenInt)f.n : (bitLenInt)1U, perm & 1, rng);
        if (!(getText<QStabilizer>(r, f.str) || getText<QUnitClifford>(r, f.str) || getText<QStabilizerHybrid>(r, f.str)))
            throw Viol("no text format");
        ++nText;
    } else {
        if (!r || ((size_t)r->GetQubitCount() != f.n))
            r = mk(st, (bitLenInt)f.n, perm % (1L << f.n), rng);
        std::vector<complex> a(f.amps.begin(), f.amps.end());
        r->SetQuantumState(a.data());
        ++nAmps;
    }
    return r;
}

static void runTrace(const js::V& tr, const Stack& st, const std::string& modeS, uint32_t seed, uint32_t idx)
{
    Slot slot[2];
    QCircuitPtr circ[2];
    Saved file[2];
    qrack_rand_gen_ptr rng = std::make_shared<qrack_rand_gen>(seed * 7919u + idx);
    const uint32_t hh = mix(seed * 1000003u + idx);
    int mode = 0; // 0 end only, 1 every step through a clone, 2 every step directly
    if (modeS == "mix")
        mode = (hh % 5) < 3 ? 0 : 1 + (hh % 2);
    else
        mode = atoi(modeS.c_str());
    int si = 0;
    for (const js::V& stp : tr["steps"].a) {
        const int ri = (int)stp["r"].i();
        Slot& s = slot[ri];
        OpV op(stp["op"]);
        curInfo = "step " + std::to_string(si) + " mode " + std::to_string(mode) + " r" + std::to_string(ri) + " " + op.str();
        const uint32_t h = mix(hh + 77u * si);
        for (auto& x : skipOps)
            if (x == op.o)
                throw Unsupported("skip " + x);
        ++nSteps;
        if (op.o == "New") {
            s.r = mk(st, (bitLenInt)op.k[0], op.k[1], rng);
            Alt a = altOf(stp["alts"][0]);
            s.exp = a.p;
            s.n = a.n;
            s.ph = true;
        } else if (stp.has("cs")) {
            appendGate(circ[stp["cs"].i()], op, h);
        } else if (op.o == "CNew") {
            circ[op.k[0]] = std::make_shared<QCircuit>(op.k[1] != 0, op.k[2] != 0);
        } else if (op.o == "CClone") {
            circ[op.k[1]] = circ[op.k[0]]->Clone();
        } else if (op.o == "CInv") {
            circ[op.k[1]] = circ[op.k[0]]->Inverse();
        } else if (op.o == "CCombine") {
            circ[op.k[0]]->Combine(circ[op.k[1]]);
        } else if (op.o == "CAppend") {
            circ[op.k[0]]->Append(circ[op.k[1]]);
        } else if (op.o == "CText") {
            std::stringstream ss;
            ss << circ[op.k[0]];
            circ[op.k[1]] = std::make_shared<QCircuit>();
            ss >> circ[op.k[1]];
        } else if (op.o == "CRun") {
            circ[op.k[0]]->Run(s.r);
            Alt a = altOf(stp["alts"][0]);
            s.exp = a.p;
            s.n = a.n;
            s.ph = false;
        } else if (op.o == "CPlc") {
            const size_t mask = (size_t)op.k[1];
            std::set<bitLenInt> qs;
            for (size_t i = 0; i < s.n; ++i)
                if ((mask >> i) & 1)
                    qs.insert((bitLenInt)i);
            QInterfacePtr t = s.r->Clone();
            circ[op.k[0]]->PastLightCone(qs)->Run(t);
            Alt a = altOf(stp["alts"][0]);
            if ((size_t)t->GetQubitCount() != a.n)
                throw Viol("light cone run changed the register width");
            auto x = rdm(stateOf(t), a.n, mask), y = rdm(a.p, a.n, mask);
            ++nQuery;
            for (size_t i = 0; i < x.size(); ++i)
                if (!(std::abs(x[i] - y[i]) < 2 * TOL))
                    throw Viol("past light cone: reduced state differs");
        } else if (op.o == "Clone") {
            Slot& d = slot[op.k[0]];
            d.r = s.r->Clone();
            d.exp = s.exp;
            d.n = s.n;
            d.ph = s.ph;
        } else if (op.o == "FSave") {
            save(file[op.k[0]], s.r, op.k[1] != 0, st.cliffordOnly);
        } else if (op.o == "FLoad") {
            s.r = load(file[op.k[0]], s.r, op.k[1] != 0, op.k[2], st, rng);
            Alt a = altOf(stp["alts"][0]);
            s.exp = a.p;
            s.n = a.n;
            s.ph = false;
        } else if (op.o == "Compose") {
            Slot& d = slot[op.k[0]];
            const bitLenInt at = (bitLenInt)op.k[1];
            bitLenInt got;
            if ((size_t)at == s.n && (h & 1))
                got = s.r->Compose(d.r);
            else
                got = s.r->Compose(d.r, at);
            if (got != at)
                throw Viol("Compose returned offset " + std::to_string((int)got) + " want " + std::to_string((int)at));
            Alt a = altOf(stp["alts"][0]);
            s.exp = a.p;
            s.n = a.n;
            s.ph = s.ph && d.ph;
        } else if (op.o == "Decompose") {
            Slot& d = slot[op.k[0]];
            const bitLenInt start = (bitLenInt)op.k[1], len = (bitLenInt)op.k[2];
            const int kind = h % 3;
            if (kind == 0) {
                d.r = s.r->Decompose(start, len);
            } else {
                QInterfacePtr dst = mk(st, len, 0, rng);
                if ((len > 1) && ((h / 3) & 1))
                    dst->Swap(0, len - 1); // (a relabelling of |0...0> is still |0...0>)
                if (kind == 1) {
                    s.r->Decompose(start, dst);
                } else if (!s.r->TryDecompose(start, dst, 1e-4f)) {
                    throw Viol("TryDecompose refused separable qubits");
                }
                d.r = dst;
            }
            Alt a = altOf(stp["alts"][0]);
            Alt b = altOf(stp["alts2"][0]);
            s.exp = a.p;
            s.n = a.n;
            d.exp = b.p;
            d.n = b.n;
            s.ph = d.ph = false;
        } else if (op.o[0] == 'Q' && stp.has("vals")) {
            try {
                query(s, op, stp["vals"], h);
            } catch (const Unsupported&) {
                ++nSkipped; // the simulator type does not offer this query
            }
        } else if (stp.has("bad")) {
            bool threw = false;
            try {
                if (op.o == "Compose0") {
                    s.r->Compose(mk(st, 1, 0, rng), (bitLenInt)op.k[0]);
                } else if (op.o == "Decompose0") {
                    s.r->Decompose((bitLenInt)op.k[0], mk(st, (bitLenInt)op.k[1], 0, rng));
                } else if (op.o[0] == 'Q' && op.o != "QFT" && op.o != "QFTR") {
                    queryVals(s.r, op, h);
                } else {
                    applyOp(s.r, op, false, 0);
                }
            } catch (const Unsupported&) {
                ++nSkipped;
                ++si;
                continue;
            } catch (const std::exception& e) {
                threw = true;
            }
            if (!threw)
                throw Viol("invalid call was not refused: " + op.str());
            ++nRefused;
        } else {
            std::vector<Alt> alts;
            for (auto& a : stp["alts"].a)
                alts.push_back(altOf(a));
            const size_t j = (size_t)stp["j"].i();
            const bool ph = stp["ph"].b;
            if (alts.size() == 1) {
                const long long v = applyOp(s.r, op, false, 0);
                if (alts[0].v >= 0 && v != alts[0].v)
                    throw Viol("reported " + std::to_string(v) + " want " + std::to_string(alts[0].v));
            } else if (alts[j].v >= 0 && (mode == 0 ? (h % 4) != 0 : (h % 4) == 0)) {
                const long long v = applyOp(s.r, op, true, alts[j].v);
                if (v != alts[j].v)
                    throw Viol("forced outcome " + std::to_string(alts[j].v) + " reported " + std::to_string(v));
            } else {
                // random outcome: it must be an admissible one; retry until the chosen one
                QInterfacePtr bak = s.r->Clone();
                bool done = false;
                for (int t = 0; t < 40 && !done; ++t) {
                    const long long v = applyOp(s.r, op, false, 0);
                    size_t hit = alts.size();
                    double best = 1e9;
                    Vec got;
                    for (size_t a = 0; a < alts.size(); ++a) {
                        if (alts[a].v >= 0 && alts[a].v != v)
                            continue;
                        double d = 1e9;
                        QInterfacePtr peek = s.r->Clone();
                        if (matches(peek, alts[a], false, &d, &got)) {
                            hit = a;
                            break;
                        }
                        best = std::min(best, d);
                    }
                    if (hit == alts.size())
                        throw Viol("result " + std::to_string(v) + " with post-state " + show(got) +
                            " is none of the admissible outcomes (nearest " + std::to_string(best) + ", chosen: " + show(alts[j].p) + ")");
                    if (hit == j)
                        done = true;
                    else if (dist(alts[hit].p, alts[j].p, false) < 1e-6 && alts[hit].v == alts[j].v && alts[hit].n == alts[j].n)
                        done = true;
                    else {
                        s.r = bak;
                        bak = bak->Clone();
                    }
                }
                if (!done) {
                    ++nAbandoned;
                    throw Abandon();
                }
            }
            s.exp = alts[j].p;
            s.n = alts[j].n;
            s.ph = ph;
        }
        if (mode)
            for (int x = 0; x < 2; ++x)
                if (slot[x].r)
                    checkSlot(slot[x], mode == 1, st.phaseExact, "after", x);
        ++si;
    }
    curInfo += " (end)";
    for (int x = 0; x < 2; ++x)
        if (slot[x].r) {
            checkSlot(slot[x], false, st.phaseExact, "end", x);
            checkSlot(slot[x], false, st.phaseExact, "end again", x);
        }
}

static void onSig(int sig)
{
    char b[64];
    int n = snprintf(b, sizeof b, "\nSIGNAL %d ", sig);
    (void)!write(1, b, n);
    (void)!write(1, curInfo.c_str(), curInfo.size());
    (void)!write(1, "\n", 1);
    _exit(128 + sig);
}

#ifdef CTL
// every behaviour in a controlled schedule (see sched.hpp)
#include "sched.hpp"
static void stuckFn(const char* what)
{
    printf("SIGNAL %s | %s\n", what, curInfo.c_str());
    fflush(stdout);
    _exit(3);
}
template <class F> static void RUN_ONE(F one, int idx)
{
    sched::Cfg c;
    const int v = (getenv("QR_IDX") ? atoi(getenv("QR_IDX")) : idx) + (getenv("QR_SCHED") ? atoi(getenv("QR_SCHED")) : 0);
    c.seed = (uint64_t)v * 104729ULL + 17;
    c.mode = v % 3 == 0;
    const int sticks[] = { 1, 2, 4, 16, 64, 8 };
    c.stick = sticks[v % 6];
    c.depth = 1 + v % 5;
    c.len = 200;
    c.spurious = false;
    sched::run(c, one, stuckFn);
}
#else
template <class F> static void RUN_ONE(F one, int) { one(); }
#endif

int main(int argc, char** argv)
{
    // qreplay STACK FILE MODE SEED FROM MAXFAIL [skipop ...]
    const std::string stackName = argv[1];
    Stack st = stackOf(stackName);
    std::ifstream f(argv[2]);
    const std::string mode = argv[3];
    const uint32_t seed = (uint32_t)atoi(argv[4]);
    const int from = atoi(argv[5]);
    const int maxFail = atoi(argv[6]);
    for (int i = 7; i < argc; ++i)
        skipOps.push_back(argv[i]);
    for (int sg : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM })
        signal(sg, onSig);
    std::string line;
    int idx = -1, fails = 0, ok = 0;
    while (std::getline(f, line)) {
        if (++idx < from || line.empty())
            continue;
        js::V tr = js::parse(line);
        printf("@%d\n", idx);
        fflush(stdout);
        alarm(20);
        auto one = [&]() {
        try {
            runTrace(tr, st, mode, seed, getenv("QR_IDX") ? (uint32_t)atoi(getenv("QR_IDX")) : (uint32_t)idx);
            ++ok;
        } catch (const Unsupported& e) {
            ++nUnsup;
            ++unsupBy[e.what()];
        } catch (const Abandon&) {
            ++ok;
        } catch (const Viol& e) {
            printf("FAIL %d | %s | %s\n", idx, curInfo.c_str(), e.what());
            ++fails;
        } catch (const std::exception& e) {
            printf("FAIL %d | %s | exception: %s\n", idx, curInfo.c_str(), e.what());
            ++fails;
        }
        };
        RUN_ONE(one, idx);
        alarm(0);
        fflush(stdout);
        if (fails >= maxFail)
            break;
    }
    printf("STAT {\"ok\":%d,\"fail\":%d,\"steps\":%ld,\"compares\":%ld,\"queries\":%ld,\"refused\":%ld,\"abandoned\":%ld,"
           "\"unsupported\":%ld,\"skipped\":%ld,\"texts\":%ld,\"vectors\":%ld}\n",
        ok, fails, nSteps, nCmp, nQuery, nRefused, nAbandoned, nUnsup, nSkipped, nText, nAmps);
    for (auto& x : unsupBy)
        printf("UNSUP %s %ld\n", x.first.c_str(), x.second);
    printf("DONE\n");
    return 0;
}
