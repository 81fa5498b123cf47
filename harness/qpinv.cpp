// Replays behaviours of PinvGen.tla through the C interface (libqrack_pinvoke) and checks every observation.
#include "json.hpp"
#include <algorithm>
#include <cmath>
#include <complex>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stddef.h>
#include <unistd.h>
#include "config.h"
namespace C {
#include "pinvoke_api.hpp"
}
typedef unsigned long long u64;
typedef std::complex<double> cd;
typedef std::vector<cd> Vec;
typedef std::vector<u64> Ids;

static const double TOL = 3e-3;
static long nSteps = 0, nCmp = 0, nQuery = 0, nAbandoned = 0, nRefused = 0, nSkipped = 0, nErr = 0;
static std::string curInfo;

struct Viol : std::runtime_error {
    Viol(const std::string& s)
        : std::runtime_error(s)
    {
    }
};
struct Abandon {};

static uint32_t mix(uint32_t x)
{
    x ^= x >> 16;
    x *= 0x7feb352dU;
    x ^= x >> 15;
    x *= 0x846ca68bU;
    x ^= x >> 16;
    return x;
}
static cd ring(const js::V& v)
{
    static const double h = std::sqrt(0.5);
    const double a = v[0].n, b = v[1].n, c = v[2].n, d = v[3].n;
    return cd(a + h * b - h * d, h * b + c + h * d);
}
static double surd(const js::V& v) { return v[0].n + std::sqrt(2.0) * v[1].n; }
static Vec vec(const js::V& p)
{
    Vec r;
    double n2 = 0;
    for (const js::V& x : p.a) {
        r.push_back(ring(x));
        n2 += std::norm(r.back());
    }
    const double s = 1 / std::sqrt(n2);
    for (cd& x : r)
        x *= s;
    return r;
}

struct Alt {
    long long v;
    size_t n;
    Vec p;
};
static Alt altOf(const js::V& a) { return Alt{ a["v"].i(), (size_t)a["n"].i(), vec(a["p"]) }; }

struct Slot {
    bool live = false, ord = true, erred = false;
    u64 sid = 0;
    Ids labs;
    size_t n = 0;
    Vec exp;
};
static Slot slot[3];
struct Circ {
    bool live = false;
    u64 cid = 0;
};
static Circ circ[2];

struct Flags {
    bool tn, sd, sh, bdt, nw;
    int kind; // 0 init_count_type, 1 init_count, 2 init_count_pager
};
static Flags flagsOf(const std::string& s)
{
    Flags f{ false, false, false, false, false, 0 };
    std::stringstream ss(s);
    std::string x;
    while (std::getline(ss, x, '+')) {
        if (x == "tn")
            f.tn = true;
        else if (x == "sd")
            f.sd = true;
        else if (x == "sh")
            f.sh = true;
        else if (x == "bdt")
            f.bdt = true;
        else if (x == "nw")
            f.nw = true;
        else if (x == "def")
            f.kind = 1;
        else if (x == "defp")
            f.kind = 2;
        else if (x != "cpu")
            throw std::runtime_error("stack " + s);
    }
    return f;
}
static u64 mkSim(const Flags& f, u64 n)
{
    if (f.kind == 1)
        return C::init_count(n, false);
    if (f.kind == 2)
        return C::init_count_pager(n, false);
    return C::init_count_type(n, f.tn, false, f.sd, f.sh, f.bdt, false, f.nw, false, false, false);
}

struct OpV {
    std::string o;
    std::vector<int> q, c;
    std::vector<long long> k;
    const js::V* j;
    OpV(const js::V& v)
        : o(v["o"].s)
        , j(&v)
    {
        for (auto& x : v["q"].a)
            q.push_back((int)x.i());
        for (auto& x : v["c"].a)
            c.push_back((int)x.i());
        for (auto& x : v["k"].a)
            k.push_back(x.i());
    }
    double arg(size_t i) const { return std::arg(ring((*j)["z"][i]["e"])); }
    std::vector<double> g(size_t i) const
    {
        const js::V& x = (*j)["g"][i];
        const cd s = ring(x["s"]);
        std::vector<double> r;
        for (int m = 0; m < 4; ++m) {
            const cd z = ring(x["m"][m]) / s;
            r.push_back(z.real());
            r.push_back(z.imag());
        }
        return r;
    }
    size_t ng() const { return (*j)["g"].size(); }
    std::string str() const
    {
        std::ostringstream s;
        s << o << "(q=[";
        for (auto x : q)
            s << x << ",";
        s << "] c=[";
        for (auto x : c)
            s << x << ",";
        s << "] k=[";
        for (auto x : k)
            s << x << ",";
        s << "])";
        return s.str();
    }
};

static Ids dumped;
static void onId(u64 i) { dumped.push_back(i); }
static Vec dumpedAmps;
static bool onAmp(size_t, double r, double i)
{
    dumpedAmps.push_back(cd(r, i));
    return true;
}

// distance between states up to a global phase
static double dist(const Vec& a, const Vec& b)
{
    cd ip = 0;
    double na = 0;
    for (size_t i = 0; i < a.size(); ++i) {
        ip += std::conj(a[i]) * b[i];
        na += std::norm(a[i]);
    }
    if (!(std::abs(na - 1) < 1e-2))
        return 9;
    const cd ph = std::abs(ip) > 1e-9 ? std::conj(ip) / std::abs(ip) : cd(1);
    double d = 0;
    for (size_t i = 0; i < a.size(); ++i)
        d += std::norm(a[i] - b[i] * ph);
    return std::sqrt(d);
}
static double pauliExp(const Vec& v, const std::vector<int>& b)
{
    size_t xm = 0, zm = 0, ym = 0;
    for (size_t i = 0; i < b.size(); ++i) {
        if (b[i] & 1)
            xm |= (size_t)1 << i;
        if (b[i] == 2)
            zm |= (size_t)1 << i;
        if (b[i] == 3)
            ym |= (size_t)1 << i;
    }
    cd t = 0;
    static const cd ii[4] = { 1, cd(0, 1), -1, cd(0, -1) };
    const int ny = __builtin_popcountll(ym);
    for (size_t i = 0; i < v.size(); ++i) {
        const int s = 2 * __builtin_popcountll(i & zm) + ny + 2 * __builtin_popcountll(i & ym);
        t += std::conj(v[i ^ xm]) * ii[s & 3] * v[i];
    }
    return t.real();
}
static std::string ids(const Ids& l)
{
    std::ostringstream s;
    s << "{";
    for (auto x : l)
        s << x << " ";
    s << "}";
    return s.str();
}

// compare simulator sid with the expectation; "" if it matches
static std::string differs(u64 sid, const Ids& labs, const Vec& exp, bool ord, uint32_t h)
{
    const size_t n = labs.size();
    ++nCmp;
    const u64 got = C::num_qubits(sid);
    if (got != n)
        return "num_qubits " + std::to_string(got) + " want " + std::to_string(n);
    dumped.clear();
    C::DumpIds(sid, onId);
    Ids a = dumped, b = labs;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    if (a != b)
        return "DumpIds " + ids(a) + " want " + ids(b);
    if (!n)
        return "";
    // every qubit by its label
    for (size_t i = 0; i < n; ++i) {
        double p = 0;
        for (size_t x = 0; x < exp.size(); ++x)
            if ((x >> i) & 1)
                p += std::norm(exp[x]);
        const double g = C::Prob(sid, labs[i]);
        if (!(std::abs(g - p) < TOL))
            return "Prob(" + std::to_string(labs[i]) + ")=" + std::to_string(g) + " want " + std::to_string(p);
    }
    if (ord) {
        std::vector<float> k(2 << n, -7.f);
        C::OutKet(sid, k.data());
        Vec v;
        for (size_t i = 0; i < ((size_t)1 << n); ++i)
            v.push_back(cd(k[2 * i], k[2 * i + 1]));
        const double d = dist(v, exp);
        if (!(d < TOL)) {
            std::ostringstream s;
            s << "OutKet differs by " << d << ": got";
            for (auto& x : v)
                s << " " << x;
            s << " want";
            for (auto& x : exp)
                s << " " << x;
            return s.str();
        }
        if (h % 5 == 0) {
            dumpedAmps.clear();
            C::Dump(sid, onAmp);
            if (dumpedAmps.size() != v.size() || !(dist(dumpedAmps, exp) < TOL))
                return "Dump differs";
            std::vector<float> pr((size_t)1 << n, -7.f);
            C::OutProbs(sid, pr.data());
            for (size_t i = 0; i < pr.size(); ++i)
                if (!(std::abs(pr[i] - std::norm(exp[i])) < TOL))
                    return "OutProbs differs";
        }
    }
    // Pauli strings by label: all of them for few qubits when the order is not known
    const size_t all = (size_t)1 << (2 * n);
    const size_t cnt = ord ? 2 : (n <= 2 ? all : 40);
    for (size_t t = 0; t < cnt; ++t) {
        const uint32_t r = mix(h + 31u * (uint32_t)t);
        const size_t code = (cnt == all) ? t : r % all;
        std::vector<int> bs(n);
        for (size_t i = 0; i < n; ++i)
            bs[i] = (int)((code >> (2 * i)) & 3);
        std::vector<size_t> perm(n);
        for (size_t i = 0; i < n; ++i)
            perm[i] = i;
        for (size_t i = n; i > 1; --i)
            std::swap(perm[i - 1], perm[mix(r + (uint32_t)i) % i]);
        Ids q, pb;
        for (size_t i : perm) {
            q.push_back(labs[i]);
            pb.push_back((u64)bs[i]);
        }
        const double g = C::PauliExpectation(sid, n, q.data(), pb.data());
        const double w = pauliExp(exp, bs);
        if (!(std::abs(g - w) < 2 * TOL))
            return "PauliExpectation " + ids(q) + ids(pb) + " = " + std::to_string(g) + " want " + std::to_string(w);
    }
    return "";
}

static void near_(double got, double want, const std::string& what, double tol)
{
    ++nQuery;
    if (!(std::abs(got - want) <= tol))
        throw Viol(what + ": got " + std::to_string(got) + " want " + std::to_string(want));
}

struct Env {
    u64 sid;
    const Ids* labs;
    Ids L(const std::vector<int>& q) const
    {
        Ids r;
        for (int x : q)
            r.push_back((*labs)[(size_t)x]);
        return r;
    }
    Ids range(long long start, long long len) const
    {
        Ids r;
        for (long long i = 0; i < len; ++i)
            r.push_back((*labs)[(size_t)(start + i)]);
        return r;
    }
    Ids mask(long long m) const
    {
        Ids r;
        for (size_t i = 0; i < labs->size(); ++i)
            if ((m >> i) & 1)
                r.push_back((*labs)[i]);
        return r;
    }
};

static Ids bigInt(long long v, uint32_t h)
{
    Ids r{ (u64)v };
    if (h & 1)
        r.push_back(0); // a zero high word changes nothing
    return r;
}

// perform op through the C interface; the reported value or -1
static long long apply(const Env& e, const OpV& op, uint32_t h)
{
    const u64 sid = e.sid;
    const std::string& o = op.o;
    const auto& k = op.k;
    Ids q = e.L(op.q), c = e.L(op.c);
    const u64 nc = c.size();
    const bool alias = (h >> 3) & 1; // where the interface offers two ways
    typedef void (*F1)(u64, u64);
    static const std::map<std::string, F1> one{ { "X", C::X }, { "Y", C::Y }, { "Z", C::Z }, { "H", C::H }, { "S", C::S }, { "IS", C::AdjS },
        { "T", C::T }, { "IT", C::AdjT }, { "SqrtX", C::SX }, { "ISqrtX", C::AdjSX }, { "SqrtY", C::SY }, { "ISqrtY", C::AdjSY } };
    auto it = one.find(o);
    if (it != one.end()) {
        it->second(sid, q[0]);
        return -1;
    }
    typedef void (*FC)(u64, u64, u64*, u64);
    static const std::map<std::string, FC> ctl{ { "CNOT", C::MCX }, { "AntiCNOT", C::MACX }, { "CY", C::MCY }, { "AntiCY", C::MACY },
        { "CZ", C::MCZ }, { "AntiCZ", C::MACZ }, { "CH", C::MCH }, { "AntiCH", C::MACH }, { "CS", C::MCS }, { "AntiCS", C::MACS },
        { "CIS", C::MCAdjS }, { "AntiCIS", C::MACAdjS }, { "CT", C::MCT }, { "CIT", C::MCAdjT }, { "AntiCT", C::MACT }, { "AntiCIT", C::MACAdjT },
        { "CCNOT", C::MCX }, { "AntiCCNOT", C::MACX }, { "CCY", C::MCY }, { "AntiCCY", C::MACY }, { "CCZ", C::MCZ }, { "AntiCCZ", C::MACZ } };
    auto ic = ctl.find(o);
    if (ic != ctl.end()) {
        ic->second(sid, nc, c.data(), q[0]);
        return -1;
    }
    if (o == "Mtrx" || o == "Phase" || o == "Invert") {
        std::vector<double> m = op.g(0);
        if (alias)
            C::Mtrx(sid, m.data(), q[0]);
        else
            C::MCMtrx(sid, 0, nullptr, m.data(), q[0]);
        return -1;
    }
    if (o == "MCMtrx" || o == "MCPhase" || o == "MCInvert") {
        std::vector<double> m = op.g(0);
        if (alias)
            C::MCMtrx(sid, nc, c.data(), m.data(), q[0]);
        else
            C::UCMtrx(sid, nc, c.data(), m.data(), q[0], (1ULL << nc) - 1);
        return -1;
    }
    if (o == "MACMtrx" || o == "MACPhase" || o == "MACInvert") {
        std::vector<double> m = op.g(0);
        C::MACMtrx(sid, nc, c.data(), m.data(), q[0]);
        return -1;
    }
    if (o == "UCMtrx" || o == "UCPhase" || o == "UCInvert") {
        std::vector<double> m = op.g(0);
        C::UCMtrx(sid, nc, c.data(), m.data(), q[0], (u64)k[0]);
        return -1;
    }
    if (o == "UCSB") {
        std::vector<double> m;
        for (size_t i = 0; i < op.ng(); ++i) {
            auto x = op.g(i);
            m.insert(m.end(), x.begin(), x.end());
        }
        C::Multiplex1Mtrx(sid, nc, c.data(), q[0], m.data());
        return -1;
    }
    if (o == "RX" || o == "RY" || o == "RZ") {
        const u64 b = (o == "RX") ? 1 : (o == "RY") ? 3 : 2;
        if (alias)
            C::R(sid, b, 2 * op.arg(0), q[0]);
        else {
            int bb = (int)b;
            C::Exp(sid, 1, &bb, -op.arg(0), q.data());
        }
        return -1;
    }
    if (o == "CRY" || o == "CRZ") {
        C::MCR(sid, (o == "CRY") ? 3 : 2, 2 * op.arg(0), nc, c.data(), q[0]);
        return -1;
    }
    if (o == "U") {
        C::U(sid, q[0], 2 * op.arg(0), op.arg(1), op.arg(2));
        return -1;
    }
    if (o == "CU") {
        C::MCU(sid, nc, c.data(), q[0], 2 * op.arg(0), op.arg(1), op.arg(2));
        return -1;
    }
    if (o == "AntiCU") {
        C::MACU(sid, nc, c.data(), q[0], 2 * op.arg(0), op.arg(1), op.arg(2));
        return -1;
    }
    if (o == "Swap") {
        C::SWAP(sid, q[0], q[1]);
        return -1;
    }
    if (o == "ISwap") {
        C::ISWAP(sid, q[0], q[1]);
        return -1;
    }
    if (o == "IISwap") {
        C::AdjISWAP(sid, q[0], q[1]);
        return -1;
    }
    if (o == "FSim") {
        C::FSim(sid, op.arg(0), op.arg(1), q[0], q[1]);
        return -1;
    }
    if (o == "CSwap") {
        C::CSWAP(sid, nc, c.data(), q[0], q[1]);
        return -1;
    }
    if (o == "AntiCSwap") {
        C::ACSWAP(sid, nc, c.data(), q[0], q[1]);
        return -1;
    }
    if (o == "XMask" || o == "YMask" || o == "ZMask") {
        Ids m = e.mask(k[0]);
        (o == "XMask" ? C::MX : o == "YMask" ? C::MY : C::MZ)(sid, m.size(), m.data());
        return -1;
    }
    if (o == "PhaseRootNMask") {
        Ids m = e.mask(k[1]);
        C::PhaseRootN(sid, (u64)k[0], m.size(), m.data());
        return -1;
    }
    if (o == "PhaseParity") {
        Ids m = e.mask(k[0]);
        C::PhaseParity(sid, 2 * op.arg(0), m.size(), m.data());
        return -1;
    }
    if (o == "UniformParityRZ" || o == "CUniformParityRZ") {
        Ids m = e.mask(k[0]);
        if (m.empty())
            return -1;
        std::vector<int> b(m.size(), 2);
        if (nc)
            C::MCExp(sid, m.size(), b.data(), -op.arg(0), nc, c.data(), m.data());
        else
            C::Exp(sid, m.size(), b.data(), -op.arg(0), m.data());
        return -1;
    }
    if (o == "PExp") {
        std::vector<int> b(k.begin(), k.end());
        if (nc || alias)
            C::MCExp(sid, q.size(), b.data(), op.arg(0), nc, c.data(), q.data());
        else
            C::Exp(sid, q.size(), b.data(), op.arg(0), q.data());
        return -1;
    }
    if (o == "QFTR" || o == "IQFTR") {
        (o == "QFTR" ? C::QFT : C::IQFT)(sid, q.size(), q.data());
        return -1;
    }
#define LOGIC(NAME)                                                                                                    \
    if (o == #NAME) {                                                                                                  \
        C::NAME(sid, q[0], q[1], q[2]);                                                                                \
        return -1;                                                                                                     \
    }
    LOGIC(AND) LOGIC(OR) LOGIC(XOR) LOGIC(NAND) LOGIC(NOR) LOGIC(XNOR)
#undef LOGIC
#define LOGIC(NAME)                                                                                                    \
    if (o == #NAME) {                                                                                                  \
        C::NAME(sid, k[0] != 0, q[0], q[1]);                                                                           \
        return -1;                                                                                                     \
    }
    LOGIC(CLAND) LOGIC(CLOR) LOGIC(CLXOR) LOGIC(CLNAND) LOGIC(CLNOR) LOGIC(CLXNOR)
#undef LOGIC
    if (o == "M")
        return (long long)C::M(sid, q[0]);
    if (o == "ForceM")
        return (long long)C::ForceM(sid, q[0], k[0] != 0);
    if (o == "MAll")
        return (long long)C::MAll(sid);
    if (o == "PMeasure") {
        std::vector<int> b(k.begin(), k.end());
        return (long long)C::Measure(sid, q.size(), b.data(), q.data());
    }
    if (o == "SetBit") {
        if ((C::M(sid, q[0]) != 0) != (k[0] != 0))
            C::X(sid, q[0]);
        return -1;
    }
    if (o == "SetReg") {
        Ids m = e.range(k[0], k[1]);
        for (size_t i = 0; i < m.size(); ++i)
            if ((C::M(sid, m[i]) != 0) != (((k[2] >> i) & 1) != 0))
                C::X(sid, m[i]);
        return -1;
    }
    if (o == "TrySep1") {
        C::TrySeparate1Qb(sid, q[0]);
        return -1;
    }
    if (o == "TrySep2") {
        C::TrySeparate2Qb(sid, q[0], q[1]);
        return -1;
    }
    if (o == "TrySepN") {
        C::TrySeparateTol(sid, q.size(), q.data(), 1e-5);
        return -1;
    }
    if (o == "NormalizeState") {
        C::Normalize(sid);
        return -1;
    }
    if (o == "PReset") {
        C::ResetAll(sid);
        return -1;
    }
    Ids a = k.empty() ? Ids() : bigInt(k[0], h);
    const u64 na = a.size();
    if (o == "INC" || o == "DEC" || o == "INCS" || o == "DECS" || o == "CINC" || o == "CDEC") {
        Ids r = e.range(k[1], k[2]);
        if (o == "INC")
            C::ADD(sid, na, a.data(), r.size(), r.data());
        else if (o == "DEC")
            C::SUB(sid, na, a.data(), r.size(), r.data());
        else if (o == "INCS")
            C::ADDS(sid, na, a.data(), q[0], r.size(), r.data());
        else if (o == "DECS")
            C::SUBS(sid, na, a.data(), q[0], r.size(), r.data());
        else if (o == "CINC")
            C::MCADD(sid, na, a.data(), nc, c.data(), r.size(), r.data());
        else
            C::MCSUB(sid, na, a.data(), nc, c.data(), r.size(), r.data());
        return -1;
    }
    if (o == "MUL" || o == "DIV" || o == "CMUL" || o == "CDIV") {
        Ids i = e.range(k[1], k[3]), r = e.range(k[2], k[3]);
        const u64 n = i.size();
        if (o == "MUL")
            C::MUL(sid, na, a.data(), n, i.data(), r.data());
        else if (o == "DIV")
            C::DIV(sid, na, a.data(), n, i.data(), r.data());
        else if (o == "CMUL")
            C::MCMUL(sid, na, a.data(), nc, c.data(), n, i.data(), r.data());
        else
            C::MCDIV(sid, na, a.data(), nc, c.data(), n, i.data(), r.data());
        return -1;
    }
    if (o.find("ModNOut") != std::string::npos) {
        Ids i = e.range(k[2], k[4]), r = e.range(k[3], k[4]);
        Ids m = bigInt(k[1], h);
        const u64 n = i.size();
        if (o == "MULModNOut")
            C::MULN(sid, na, a.data(), m.data(), n, i.data(), r.data());
        else if (o == "IMULModNOut")
            C::DIVN(sid, na, a.data(), m.data(), n, i.data(), r.data());
        else if (o == "POWModNOut")
            C::POWN(sid, na, a.data(), m.data(), n, i.data(), r.data());
        else if (o == "CMULModNOut")
            C::MCMULN(sid, na, a.data(), nc, c.data(), m.data(), n, i.data(), r.data());
        else if (o == "CIMULModNOut")
            C::MCDIVN(sid, na, a.data(), nc, c.data(), m.data(), n, i.data(), r.data());
        else if (o == "CPOWModNOut")
            C::MCPOWN(sid, na, a.data(), nc, c.data(), m.data(), n, i.data(), r.data());
        else
            throw std::runtime_error("harness: " + o);
        return -1;
    }
    if (o == "IndexedLDA" || o == "IndexedADC" || o == "IndexedSBC") {
        Ids i = e.range(k[0], k[1]), r = e.range(k[2], k[3]);
        std::vector<unsigned char> t;
        for (size_t x = 4; x < k.size(); ++x)
            t.push_back((unsigned char)k[x]);
        if (o == "IndexedLDA")
            C::LDA(sid, i.size(), i.data(), r.size(), r.data(), t.data());
        else if (o == "IndexedADC")
            C::ADC(sid, q[0], i.size(), i.data(), r.size(), r.data(), t.data());
        else
            C::SBC(sid, q[0], i.size(), i.data(), r.size(), r.data(), t.data());
        return -1;
    }
    if (o == "Hash") {
        Ids r = e.range(k[0], k[1]);
        std::vector<unsigned char> t;
        for (size_t x = 2; x < k.size(); ++x)
            t.push_back((unsigned char)k[x]);
        C::Hash(sid, r.size(), r.data(), t.data());
        return -1;
    }
    throw std::runtime_error("harness: unknown op " + o);
}

static void query(const Env& e, const OpV& op, const js::V& vals, uint32_t h)
{
    const u64 sid = e.sid;
    const std::string o = op.o.substr(1), w = op.str();
    const auto& k = op.k;
    Ids q = e.L(op.q);
    const u64 nq = q.size();
    std::vector<double> v;
    for (auto& x : vals.a)
        v.push_back(surd(x));
    auto frac = [&](size_t i) { return v[i] / v[0]; };
    const bool alias = (h >> 3) & 1;
    auto permProb = [&](Ids qs, const std::vector<int>& bits) {
        // in any order
        std::vector<size_t> pm(qs.size());
        for (size_t i = 0; i < pm.size(); ++i)
            pm[i] = i;
        for (size_t i = pm.size(); i > 1; --i)
            std::swap(pm[i - 1], pm[mix(h + (uint32_t)i) % i]);
        Ids q2;
        std::unique_ptr<bool[]> b2(new bool[qs.size() + 1]);
        for (size_t i = 0; i < pm.size(); ++i) {
            q2.push_back(qs[pm[i]]);
            b2[i] = bits[pm[i]] != 0;
        }
        return C::PermutationProb(sid, q2.size(), q2.data(), b2.get());
    };
    auto bitsOf = [](long long x, size_t n) {
        std::vector<int> r;
        for (size_t i = 0; i < n; ++i)
            r.push_back((int)((x >> i) & 1));
        return r;
    };
    auto probAll = [&](Ids qs) {
        std::vector<float> p((size_t)1 << qs.size(), -7.f);
        C::ProbAll(sid, qs.size(), qs.data(), p.data());
        if (p.size() + 1 != v.size())
            throw std::runtime_error("harness: ProbAll size");
        for (size_t i = 0; i < p.size(); ++i)
            near_(p[i], frac(i + 1), w + "[" + std::to_string(i) + "]", TOL);
    };
    if (o == "Prob")
        return near_(C::Prob(sid, q[0]), frac(1), w, TOL);
    if (o == "ProbAll")
        return near_(permProb(e.range(0, (long long)e.labs->size()), bitsOf(k[0], e.labs->size())), frac(1), w, TOL);
    if (o == "ProbReg")
        return near_(permProb(e.range(k[0], k[1]), bitsOf(k[2], (size_t)k[1])), frac(1), w, TOL);
    if (o == "ProbMask") {
        Ids m;
        std::vector<int> b;
        for (size_t i = 0; i < e.labs->size(); ++i)
            if ((k[0] >> i) & 1) {
                m.push_back((*e.labs)[i]);
                b.push_back((int)((k[1] >> i) & 1));
            }
        return near_(permProb(m, b), frac(1), w, TOL);
    }
    if (o == "ProbParity") {
        Ids m = e.mask(k[0]);
        std::vector<int> b(m.size(), 2);
        if (m.empty())
            return;
        return near_(C::JointEnsembleProbability(sid, m.size(), b.data(), m.data()), frac(1), w, TOL);
    }
    if (o == "PJoint") { // <P> = 1 - 2 p(-1)
        std::vector<int> b(k.begin(), k.end());
        return near_(C::JointEnsembleProbability(sid, nq, b.data(), q.data()), (1 - frac(1)) / 2, w, TOL);
    }
    if (o == "ProbRegAll")
        return probAll(e.range(k[0], k[1]));
    if (o == "ProbBitsAll")
        return probAll(q);
    if (o == "ProbMaskAll")
        return probAll(e.mask(k[0]));
    if (o == "GetProbs") {
        std::vector<float> p((size_t)1 << e.labs->size(), -7.f);
        C::OutProbs(sid, p.data());
        for (size_t i = 0; i < p.size(); ++i)
            near_(p[i], frac(i + 1), w, TOL);
        return;
    }
    const double mean = v.size() > 1 ? v[1] / v[0] : 0;
    const double var = v.size() > 2 ? v[2] / v[0] - mean * mean : 0;
    const double tE = TOL * (1 + std::abs(mean)), tV = v.size() > 2 ? 2 * TOL * (1 + v[2] / v[0]) : 0;
    if (o == "ExpBits") // (the specification adds an offset, the C interface does not)
        return near_(C::PermutationExpectation(sid, nq, q.data()), mean - (double)k[0], w, tE);
    if (o == "VarBits")
        return near_(C::Variance(sid, nq, q.data()), var, w, tV);
    if (o == "ExpFact" || o == "VarFact") {
        Ids f(k.begin(), k.end());
        if (o == "ExpFact")
            return near_(C::FactorizedExpectation(sid, nq, q.data(), 1, f.data()), mean, w, tE);
        return near_(C::FactorizedVariance(sid, nq, q.data(), 1, f.data()), var, w, tV);
    }
    if (o == "ExpFloatFact" || o == "VarFloatFact") {
        std::vector<float> f(k.begin(), k.end());
        if (o == "ExpFloatFact")
            return near_(C::FactorizedExpectationFp(sid, nq, q.data(), f.data()), mean, w, tE);
        return near_(C::FactorizedVarianceFp(sid, nq, q.data(), f.data()), var, w, tV);
    }
    if (o == "ExpPauli" || o == "VarPauli") {
        Ids b(k.begin(), k.end());
        if (o == "ExpPauli")
            return near_(C::PauliExpectation(sid, nq, q.data(), b.data()), mean, w, TOL);
        return near_(C::PauliVariance(sid, nq, q.data(), b.data()), 1 - mean * mean, w, 2 * TOL);
    }
    if (o == "ExpUnit" || o == "VarUnit") {
        std::vector<double> m = op.g(0);
        std::vector<float> b(m.begin(), m.end());
        std::vector<float> ev{ (float)k[0], (float)k[1] };
        if (o == "ExpUnit")
            return near_(C::MatrixExpectationEigenVal(sid, 1, q.data(), b.data(), ev.data()), mean, w, tE);
        return near_(C::MatrixVarianceEigenVal(sid, 1, q.data(), b.data(), ev.data()), var, w, tV);
    }
    if (o == "ExpU3" || o == "VarU3") {
        std::vector<float> b{ (float)(2 * op.arg(0)), (float)op.arg(1), (float)op.arg(2) };
        std::vector<float> ev{ (float)k[0], (float)k[1] };
        if (o == "ExpU3")
            return near_(C::UnitaryExpectationEigenVal(sid, 1, q.data(), b.data(), ev.data()), mean, w, tE);
        return near_(C::UnitaryVarianceEigenVal(sid, 1, q.data(), b.data(), ev.data()), var, w, tV);
    }
    if (o == "MultiShot") {
        std::vector<u64> buf((size_t)k[0], ~0ULL);
        C::MeasureShots(sid, nq, q.data(), buf.size(), buf.data());
        ++nQuery;
        for (u64 x : buf)
            if (x + 1 >= v.size() || frac((size_t)x + 1) < 1e-7)
                throw Viol(w + ": impossible outcome " + std::to_string(x));
        return;
    }
    (void)alias;
    throw std::runtime_error("harness: unknown query " + o);
}

// a call with a bad identifier.  kind of badness: 0 unknown qubit label, 1 unknown simulator, 2 duplicate labels
static bool badCall(u64 sid, const Ids& labs, const OpV& op, int how, u64 bad, uint32_t h, bool tn, std::string& name)
{
    Ids q;
    for (int x : op.q)
        q.push_back(labs[(size_t)x]);
    const size_t at = (h >> 4) % q.size();
    Ids one = q;
    if (how == 0)
        one[at] = bad;
    const u64 first = one[0], n = one.size();
    u64 badQ = how == 0 ? bad : first; // for calls that take single labels
    Ids rest;
    for (u64 x : q)
        if (x != badQ)
            rest.push_back(x);
    double m[8] = { 0, 0, 1, 0, 1, 0, 0, 0 };
    std::vector<int> b(n + 1, 1);
    Ids ub(n + 1, 3);
    Ids a{ 1 };
    std::vector<float> f(256, 0.f);
    std::vector<u64> shots(4);
    if (how == 2) {
        if (labs.size() < 1)
            return false;
        Ids d{ q[0], q[0] };
        switch (op.k[0] % 8) {
        case 0:
            name = "Exp dup";
            C::Exp(sid, 2, b.data(), 0.3, (b.push_back(1), b.data()) ? d.data() : nullptr);
            return true;
        case 1:
            name = "Measure dup";
            b.push_back(1);
            C::Measure(sid, 2, b.data(), d.data());
            return true;
        case 2:
            name = "JointEnsembleProbability dup";
            b.push_back(1);
            C::JointEnsembleProbability(sid, 2, b.data(), d.data());
            return true;
        case 3:
            if (tn)
                return false;
            name = "ADD dup";
            C::ADD(sid, 1, a.data(), 2, d.data());
            return true;
        case 4:
            if (tn || labs.size() < 3)
                return false;
            name = "Dispose dup";
            C::Dispose(sid, 2, d.data());
            return true;
        case 5:
            if (labs.size() < 2)
                return false;
            name = "MCX with a control twice";
            C::MCX(sid, 2, d.data(), q[1]);
            return true;
        case 6:
            name = "allocate an existing label";
            C::allocateQubit(sid, q[0]);
            return true;
        default:
            if (tn || labs.size() < 2)
                return false;
            name = "MUL dup";
            C::MUL(sid, 1, a.data(), 1, d.data(), d.data());
            return true;
        }
    }
    switch (op.k[0] % 44) {
#define B1(N, CALL)                                                                                                    \
    case N:                                                                                                            \
        name = #CALL;                                                                                                  \
        C::CALL;                                                                                                       \
        return true;
        B1(0, X(sid, badQ))
        B1(1, H(sid, badQ))
        B1(2, AdjT(sid, badQ))
        B1(3, U(sid, badQ, 0.1, 0.2, 0.3))
        B1(4, Mtrx(sid, m, badQ))
        B1(5, MCX(sid, rest.size(), rest.data(), badQ))
        B1(6, MCMtrx(sid, rest.size(), rest.data(), m, badQ))
        B1(9, M(sid, badQ))
        B1(10, ForceM(sid, badQ, false))
        B1(11, Prob(sid, badQ))
        B1(12, ProbAll(sid, n, one.data(), f.data()))
        B1(14, R(sid, 1, 0.3, badQ))
        B1(15, MCR(sid, 2, 0.3, rest.size(), rest.data(), badQ))
        B1(16, Exp(sid, n, b.data(), 0.3, one.data()))
        B1(18, Measure(sid, n, b.data(), one.data()))
        B1(19, JointEnsembleProbability(sid, n, b.data(), one.data()))
        B1(20, PermutationExpectation(sid, n, one.data()))
        B1(21, PauliExpectation(sid, n, one.data(), ub.data()))
        B1(22, MeasureShots(sid, n, one.data(), 4, shots.data()))
        B1(23, MX(sid, n, one.data()))
        B1(24, MZ(sid, n, one.data()))
        B1(25, QFT(sid, n, one.data()))
        B1(29, TrySeparate1Qb(sid, badQ))
        B1(31, MACZ(sid, rest.size(), rest.data(), badQ))
        B1(32, SX(sid, badQ))
        B1(33, Multiplex1Mtrx(sid, 0, rest.data(), badQ, m))
    case 7:
        if (rest.empty())
            return false;
        name = "MCX bad control";
        C::MCX(sid, 1, &badQ, rest[0]);
        return true;
    case 8:
        if (rest.empty())
            return false;
        name = "SWAP";
        (h & 1) ? C::SWAP(sid, badQ, rest[0]) : C::SWAP(sid, rest[0], badQ);
        return true;
    case 13: {
        name = "PermutationProb";
        bool c[16] = { true };
        C::PermutationProb(sid, n, one.data(), c);
        return true;
    }
    case 17:
        name = "MCExp";
        if (rest.empty())
            return false;
        (h & 1) ? C::MCExp(sid, 1, b.data(), 0.3, 1, rest.data(), &badQ) : C::MCExp(sid, 1, b.data(), 0.3, 1, &badQ, rest.data());
        return true;
    case 26:
        if (tn)
            return false;
        name = "ADD";
        C::ADD(sid, 1, a.data(), n, one.data());
        return true;
    case 27:
        if (tn || rest.empty())
            return false;
        name = "MUL";
        C::MUL(sid, 1, a.data(), 1, rest.data(), &badQ);
        return true;
    case 28:
        if (tn || rest.empty())
            return false;
        name = "LDA";
        {
            unsigned char t[2] = { 0, 1 };
            C::LDA(sid, 1, &badQ, 1, rest.data(), t);
        }
        return true;
    case 30:
        if (rest.empty())
            return false;
        name = "UCMtrx bad control";
        C::UCMtrx(sid, 1, &badQ, m, rest[0], 1);
        return true;
    case 34:
        if (tn)
            return false;
        name = "release";
        C::release(sid, badQ);
        return true;
    case 35:
        if (tn)
            return false;
        name = "Dispose";
        C::Dispose(sid, n, one.data());
        return true;
    case 36:
        if (rest.empty())
            return false;
        name = "AND";
        C::CLAND(sid, true, rest[0], badQ);
        return true;
    case 37:
        if (tn)
            return false;
        name = "Separate";
        C::Separate(sid, n, one.data());
        return true;
    case 38:
        if (how != 1)
            return false;
        name = "num_qubits";
        C::num_qubits(sid);
        return true;
    case 39:
        if (how != 1)
            return false;
        name = "OutKet";
        C::OutKet(sid, f.data());
        return true;
    case 40:
        if (how != 1)
            return false;
        name = "init_clone";
        C::init_clone(sid);
        return true;
    case 41:
        if (how != 1)
            return false;
        name = "allocateQubit";
        C::allocateQubit(sid, 3);
        return true;
    case 42:
        if (how != 1)
            return false;
        name = "destroy";
        C::destroy(sid);
        return true;
    case 43:
        if (how != 1)
            return false;
        name = "MAll";
        C::MAll(sid);
        return true;
    default:
        return false;
    }
}

static void setSlot(Slot& s, u64 sid, const js::V& u, const Alt& a)
{
    s.live = true;
    s.sid = sid;
    s.labs.clear();
    for (auto& x : u[1].a)
        s.labs.push_back((u64)x.i());
    s.ord = u[2].b;
    s.n = a.n;
    s.exp = a.p;
    if (s.labs.size() != s.n)
        throw std::runtime_error("harness: labels");
}
static void checkSlot(const Slot& s, uint32_t h, const std::string& what)
{
    const std::string d = differs(s.sid, s.labs, s.exp, s.ord, h);
    if (!d.empty())
        throw Viol(what + ": " + d);
}
static void noError(Slot& s, const std::string& what)
{
    const int e = C::get_error(s.sid);
    ++nErr;
    if (e && !s.erred)
        throw Viol(what + ": get_error reports " + std::to_string(e) + " after a valid call");
}

static void appendGate(u64 cid, const OpV& op, uint32_t h)
{
    const std::string o = op.o.substr(1);
    // controls in any order; the value of each is a bit of the permutation
    auto mc = [&](std::vector<double> m, long long key) {
        std::vector<size_t> pm(op.c.size());
        for (size_t i = 0; i < pm.size(); ++i)
            pm[i] = i;
        for (size_t i = pm.size(); i > 1; --i)
            std::swap(pm[i - 1], pm[mix(h + (uint32_t)i) % i]);
        Ids c;
        u64 p = 0;
        for (size_t i = 0; i < pm.size(); ++i) {
            c.push_back((u64)op.c[pm[i]]);
            p |= (u64)((key >> pm[i]) & 1) << i;
        }
        C::qcircuit_append_mc(cid, m.data(), c.size(), c.data(), (u64)op.q[0], p);
    };
    if (o == "Mtrx") {
        auto m = op.g(0);
        C::qcircuit_append_1qb(cid, m.data(), (u64)op.q[0]);
    } else if (o == "UCMtrx") {
        mc(op.g(0), op.k[0]);
    } else if (o == "UCSB") {
        for (long long key : op.k)
            mc(op.g((size_t)key), key);
    } else if (o == "Swap") {
        C::qcircuit_swap(cid, (u64)op.q[0], (u64)op.q[1]);
    } else {
        throw std::runtime_error("harness: circuit gate " + o);
    }
}
static std::vector<cd> rdm(const Vec& v, size_t n, size_t mask)
{
    std::vector<size_t> q;
    for (size_t i = 0; i < n; ++i)
        if ((mask >> i) & 1)
            q.push_back(i);
    const size_t D = (size_t)1 << q.size();
    std::vector<cd> r(D * D);
    auto key = [&](size_t i) {
        size_t x = 0;
        for (size_t j = 0; j < q.size(); ++j)
            x |= ((i >> q[j]) & 1) << j;
        return x;
    };
    double nrm = 0;
    for (auto& x : v)
        nrm += std::norm(x);
    for (size_t a = 0; a < v.size(); ++a)
        for (size_t b = 0; b < v.size(); ++b)
            if ((a & ~mask) == (b & ~mask))
                r[key(a) * D + key(b)] += v[a] * std::conj(v[b]) / nrm;
    return r;
}

static void runTrace(const js::V& tr, const Flags& fl, const std::string& modeS, uint32_t seed, uint32_t idx)
{
    for (auto& s : slot)
        s = Slot();
    for (auto& c : circ)
        c = Circ();
    const uint32_t hh = mix(seed * 1000003u + idx);
    const int mode = (modeS == "mix") ? (int)((hh % 3) != 0) : atoi(modeS.c_str());
    std::set<u64> dead; // circuit ids to give back
    int si = 0;
    for (const js::V& stp : tr["steps"].a) {
        const int ri = (int)stp["r"].i();
        Slot& s = slot[ri];
        OpV op(stp["op"]);
        const js::V& u = stp["u"];
        curInfo = "step " + std::to_string(si) + " mode " + std::to_string(mode) + " r" + std::to_string(ri) + " " + op.str();
        const uint32_t h = mix(hh + 77u * si);
        ++nSteps;
        Ids labs;
        for (auto& x : stp["l"].a)
            labs.push_back((u64)x.i());
        Env e{ s.sid, &labs };
        auto dropOld = [&](Slot& d) {
            if (d.live) {
                C::destroy(d.sid);
                d.live = false;
            }
        };
        auto fresh = [&](u64 sid, const Slot& d, const char* what) {
            for (int i = 0; i < 3; ++i)
                if (slot[i].live && &slot[i] != &d && slot[i].sid == sid)
                    throw Viol(std::string(what) + " returned an id that is in use: " + std::to_string(sid));
        };
        if (op.o == "PNew") {
            const bool before = h & 1;
            if (before)
                dropOld(s);
            const u64 sid = mkSim(fl, (u64)op.k[0]);
            fresh(sid, s, "init");
            if (!before && s.live && s.sid == sid)
                throw Viol("init returned an id that is in use");
            if (!before)
                dropOld(s);
            s.erred = false;
            setSlot(s, sid, u[0], altOf(stp["alts"][0]));
        } else if (op.o == "PDestroy") {
            dropOld(s);
        } else if (op.o == "PClone") {
            Slot& d = slot[op.k[0]];
            if (h & 1)
                dropOld(d);
            const u64 sid = C::init_clone(s.sid);
            fresh(sid, d, "init_clone");
            if (sid == s.sid)
                throw Viol("init_clone returned the original's id");
            if (!(h & 1))
                dropOld(d);
            d.erred = false;
            setSlot(d, sid, u[0], altOf(stp["alts2"][0]));
            noError(d, "init_clone");
        } else if (op.o == "PAlloc") {
            C::allocateQubit(s.sid, (u64)op.k[0]);
            setSlot(s, s.sid, u[0], altOf(stp["alts"][0]));
        } else if (op.o == "PRelease") {
            const bool z = C::release(s.sid, labs[(size_t)op.q[0]]);
            const double p1 = surd(stp["vals"][1]) / surd(stp["vals"][0]);
            if (std::abs(p1 - 0.01) > 2e-3 && z != (p1 < 0.01))
                throw Viol("release returned " + std::to_string(z) + " for a qubit of probability " + std::to_string(p1));
            setSlot(s, s.sid, u[0], altOf(stp["alts"][0]));
        } else if (op.o == "PCompose") {
            Ids nl(op.k.begin() + 1, op.k.end());
            C::Compose(s.sid, slot[op.k[0]].sid, nl.data());
            setSlot(s, s.sid, u[0], altOf(stp["alts"][0]));
        } else if (op.o == "PDecompose") {
            Slot& d = slot[op.k[0]];
            if (h & 1)
                dropOld(d);
            Ids q = e.L(op.q);
            const u64 sid = C::Decompose(s.sid, q.size(), q.data());
            fresh(sid, d, "Decompose");
            if (!(h & 1))
                dropOld(d);
            d.erred = false;
            setSlot(s, s.sid, u[0], altOf(stp["alts"][0]));
            setSlot(d, sid, u[1], altOf(stp["alts2"][0]));
            noError(d, "Decompose");
        } else if (op.o == "PDispose") {
            Ids q = e.L(op.q);
            C::Dispose(s.sid, q.size(), q.data());
            setSlot(s, s.sid, u[0], altOf(stp["alts"][0]));
        } else if (op.o == "PSeparate") {
            Ids q = e.L(op.q);
            C::Separate(s.sid, q.size(), q.data());
            setSlot(s, s.sid, u[0], altOf(stp["alts"][0]));
        } else if (op.o == "PInKet") {
            Alt a = altOf(stp["alts"][0]);
            std::vector<float> k;
            for (auto& x : a.p) {
                k.push_back((float)x.real());
                k.push_back((float)x.imag());
            }
            C::InKet(s.sid, k.data());
            setSlot(s, s.sid, u[0], a);
        } else if (stp.has("cs")) {
            appendGate(circ[stp["cs"].i()].cid, op, h);
        } else if (op.o[0] == 'C' && (op.o == "CNew" || op.o == "CClone" || op.o == "CText" || op.o == "CInv" || op.o == "CDel")) {
            if (op.o == "CDel") {
                C::destroy_qcircuit(circ[op.k[0]].cid);
                circ[op.k[0]].live = false;
            } else if (op.o == "CNew") {
                Circ& c = circ[op.k[0]];
                if (c.live)
                    C::destroy_qcircuit(c.cid);
                c.cid = C::init_qcircuit(op.k[1] != 0, op.k[2] != 0);
                c.live = true;
            } else {
                Circ &c = circ[op.k[0]], &d = circ[op.k[1]];
                u64 id;
                if (op.o == "CClone") {
                    id = C::init_qcircuit_clone(c.cid);
                } else if (op.o == "CInv") {
                    id = C::qcircuit_inverse(c.cid);
                } else {
                    char nm[] = "/tmp/qpinvXXXXXX";
                    const int fd = mkstemp(nm);
                    if (fd < 0)
                        throw std::runtime_error("mkstemp");
                    close(fd);
                    C::qcircuit_out_to_file(c.cid, nm);
                    id = C::init_qcircuit(false, false);
                    C::qcircuit_in_from_file(id, nm);
                    std::ifstream in(nm);
                    std::stringstream body;
                    body << in.rdbuf();
                    unlink(nm);
                    const size_t len = C::qcircuit_out_to_string_length(c.cid);
                    std::vector<char> buf(len + 16, '#');
                    C::qcircuit_out_to_string(c.cid, buf.data());
                    std::string str(buf.data(), std::min(strnlen(buf.data(), buf.size()), len));
                    std::istringstream x1(body.str()), x2(str);
                    std::string t1, t2;
                    while (x1 >> t1) {
                        if (!(x2 >> t2) || t1 != t2)
                            throw Viol("qcircuit_out_to_string and qcircuit_out_to_file differ");
                    }
                }
                if (id == c.cid)
                    throw Viol(op.o + " returned the id of the original circuit");
                if (d.live && (&d != &c) && id == d.cid)
                    throw Viol(op.o + " returned an id that is in use");
                if (d.live)
                    C::destroy_qcircuit(d.cid);
                d.cid = id;
                d.live = true;
            }
        } else if (op.o == "CPlc") {
            const size_t mask = (size_t)op.k[1];
            Ids qs;
            for (size_t i = 0; i < s.n; ++i)
                if ((mask >> i) & 1)
                    qs.push_back(i);
            const u64 sid = C::init_clone(s.sid);
            const u64 cid = C::qcircuit_past_light_cone(circ[op.k[0]].cid, qs.size(), qs.data());
            C::qcircuit_run(cid, sid);
            std::vector<float> k((size_t)2 << s.n);
            C::OutKet(sid, k.data());
            Vec v;
            for (size_t i = 0; i < ((size_t)1 << s.n); ++i)
                v.push_back(cd(k[2 * i], k[2 * i + 1]));
            auto x = rdm(v, s.n, mask), y = rdm(altOf(stp["alts2"][0]).p, s.n, mask);
            ++nQuery;
            C::destroy_qcircuit(cid);
            C::destroy(sid);
            for (size_t i = 0; i < x.size(); ++i)
                if (!(std::abs(x[i] - y[i]) < 2 * TOL))
                    throw Viol("past light cone: reduced state differs");
        } else if (op.o[0] == 'Q' && stp.has("vals")) {
            query(e, op, stp["vals"], h);
        } else if (stp.has("bad")) {
            const int sel = (int)op.k[1];
            const int how = sel <= 2 ? 0 : sel == 3 ? 1 : 2;
            u64 sid = s.sid;
            if (how == 1) {
                const u64 ch[4] = { 1000000, ~0ULL, 1ULL << 32, (1ULL << 63) + s.sid };
                sid = ch[h % 4];
            }
            std::string name;
            const int before = C::get_error(s.sid);
            if (!badCall(sid, labs, op, how, (u64)op.k[2], h, fl.tn || fl.kind, name)) {
                ++nSkipped;
            } else {
                curInfo += " " + name + (how == 0 ? " unknown label" : how == 1 ? " unknown simulator" : "");
                const int err = C::get_error(s.sid);
                if (!err)
                    throw Viol("bad call not reported by get_error");
                if (how == 1) {
                    if (C::get_error(s.sid) != before)
                        throw Viol("a call on an unknown simulator set the error of another");
                } else {
                    s.erred = true;
                }
                ++nRefused;
            }
        } else {
            std::vector<Alt> alts;
            for (auto& a : stp["alts"].a)
                alts.push_back(altOf(a));
            const size_t j = (size_t)stp["j"].i();
            const bool choice = alts.size() > 1;
            for (int tries = 0;; ++tries) {
                u64 back = 0;
                if (choice)
                    back = C::init_clone(s.sid);
                e.sid = s.sid;
                long long ret = -1;
                if (op.o == "CRun")
                    C::qcircuit_run(circ[op.k[0]].cid, s.sid);
                else
                    ret = apply(e, op, h);
                std::vector<size_t> cand;
                for (size_t i = 0; i < alts.size(); ++i)
                    if (alts[i].v == -1 || alts[i].v == ret)
                        cand.push_back(i);
                if (cand.empty())
                    throw Viol("impossible outcome " + std::to_string(ret));
                Ids l2;
                for (auto& x : u[0][1].a)
                    l2.push_back((u64)x.i());
                bool hit = false;
                if (cand.size() == 1 && cand[0] == j && !mode) {
                    hit = true;
                } else {
                    std::string d;
                    bool any = false;
                    for (size_t i : cand) {
                        d = differs(s.sid, l2, alts[i].p, u[0][2].b, h);
                        any = any || d.empty();
                        if (d.empty() && i == j) {
                            hit = true;
                            break;
                        }
                    }
                    if (!any)
                        throw Viol("state after the operation: " + d);
                }
                if (hit) {
                    if (choice)
                        C::destroy(back);
                    setSlot(s, s.sid, u[0], alts[j]);
                    break;
                }
                noError(s, op.o);
                C::destroy(s.sid);
                s.sid = back;
                if (tries > 60)
                    throw Abandon();
            }
        }
        if (s.live)
            noError(s, op.o);
        if (mode)
            for (int i = 0; i < 3; ++i)
                if (slot[i].live)
                    checkSlot(slot[i], h + i, "after " + op.o + " slot " + std::to_string(i));
        ++si;
    }
    for (int i = 0; i < 3; ++i)
        if (slot[i].live)
            checkSlot(slot[i], hh + i, "end slot " + std::to_string(i));
    for (auto& s : slot)
        if (s.live)
            C::destroy(s.sid);
    for (auto& c : circ)
        if (c.live)
            C::destroy_qcircuit(c.cid);
}

static void onSig(int sg)
{
    char b[600];
    const int n = snprintf(b, sizeof b, "SIGNAL %d in %s\n", sg, curInfo.c_str());
    if (write(1, b, (size_t)std::min(n, (int)sizeof b - 1)) < 0) {
    }
    _exit(100 + sg);
}

int main(int argc, char** argv)
{
    if (argc < 7) {
        fprintf(stderr, "qpinv STACK FILE MODE SEED FROM MAXFAIL\n");
        return 2;
    }
    struct Null : std::streambuf {
        int overflow(int c) override { return c; }
    } nul;
    std::cout.rdbuf(&nul);
    signal(SIGSEGV, onSig);
    signal(SIGABRT, onSig);
    signal(SIGFPE, onSig);
    const Flags fl = flagsOf(argv[1]);
    const uint32_t seed = (uint32_t)atoi(argv[4]);
    const size_t from = (size_t)atoi(argv[5]);
    const long maxfail = atol(argv[6]);
    const char* qi = getenv("QR_IDX");
    std::ifstream in(argv[2]);
    std::string line;
    size_t idx = 0;
    long fails = 0, ok = 0;
    while (std::getline(in, line)) {
        const size_t id = idx++;
        if (id < from || line.empty())
            continue;
        printf("@%zu\n", id);
        fflush(stdout);
        try {
            runTrace(js::parse(line), fl, argv[3], seed, qi ? (uint32_t)atoi(qi) : (uint32_t)id);
            ++ok;
        } catch (const Viol& v) {
            printf("FAIL %zu | %s | %s\n", id, curInfo.c_str(), v.what());
            ++fails;
        } catch (const Abandon&) {
            ++nAbandoned;
        }
        if (fails >= maxfail)
            break;
    }
    printf("STAT {\"steps\":%ld,\"compared\":%ld,\"queries\":%ld,\"refused\":%ld,\"abandoned\":%ld,\"skipped\":%ld,\"errchecks\":%ld,\"ok\":%ld}\n",
        nSteps, nCmp, nQuery, nRefused, nAbandoned, nSkipped, nErr, ok);
    printf("DONE\n");
    fflush(stdout);
    _exit(fails ? 1 : 0);
}
