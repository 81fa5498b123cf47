// Runs programs of the specification (SeedGen.tla) in two worlds with the same seeds and compares everything observed
// (QSeed.tla: outcomes are a function of program and seed).
//   qseed STACK FILE MODE SEED FROM MAXFAIL        (MODE is unused)
#include "ops.hpp"
#include <csignal>
#include <cstdio>
#include <fstream>
#include <unistd.h>

static std::string curInfo;
static long nSteps = 0, nOut = 0, nSeed = 0, nRand = 0, nThrow = 0, nUnsup = 0;
static std::map<std::string, long> unsupBy;
struct Viol : std::runtime_error {
    Viol(const std::string& s)
        : std::runtime_error(s)
    {
    }
};
static uint32_t mix(uint32_t h)
{
    h ^= h >> 16;
    h *= 0x7feb352dU;
    h ^= h >> 15;
    h *= 0x846ca68bU;
    return h ^ (h >> 16);
}

struct Obs {
    std::vector<double> v;
    bool exact; // outcomes agree exactly, computed values up to rounding
    bool threw;
};
struct World {
    QInterfacePtr r[2];
    qrack_rand_gen_ptr rng;
    size_t pc = 0;
    bool dead = false;
    std::vector<Obs> log;
    std::vector<std::unique_ptr<char[]>> junk;
};

static const std::vector<std::string> RANDOM = { "M", "MAll", "MReg", "MBits", "SetBit", "SetReg", "MParity", "QMultiShot" };

static void runStep(World& w, const js::V& stp, const Stack& st, uint32_t h, int wi)
{
    QInterfacePtr& s = w.r[stp["r"].i()];
    OpV op(stp["op"]);
    Obs o;
    o.exact = false;
    o.threw = false;
    if (op.o == "Seed") {
        s->SetRandomSeed((uint32_t)op.k[0]);
    } else if (op.o == "New") {
        s = mk(st, (bitLenInt)op.k[0], op.k[1], w.rng);
    } else if (op.o == "Clone") {
        w.r[op.k[0]] = s->Clone();
    } else if (op.o == "Compose") {
        s->Compose(w.r[op.k[0]], (bitLenInt)op.k[1]);
    } else if (op.o[0] == 'Q' && stp.has("vals")) {
        try {
            o.v = queryVals(s, op, h);
            o.exact = op.o == "QMultiShot";
        } catch (const Unsupported&) {
        }
    } else {
        // outcomes that the generator of the program had in mind may be impossible on the path taken here
        try {
            const long long v = applyOp(s, op, false, 0);
            o.v.push_back((double)v);
            o.exact = true;
        } catch (const Unsupported&) {
            throw;
        } catch (const std::exception& e) {
            o.threw = true;
            w.dead = true;
            ++nThrow;
        }
    }
    w.log.push_back(o);
    if (wi == 0) {
        ++nSteps;
        for (auto& x : RANDOM)
            if (x == op.o)
                ++nRand;
        if (op.o == "Seed")
            ++nSeed;
    }
}

static void compare(const World& a, const World& b, const js::V& tr)
{
    for (size_t i = 0; i < a.log.size() && i < b.log.size(); ++i) {
        const Obs &x = a.log[i], &y = b.log[i];
        bool ok = x.threw == y.threw && x.v.size() == y.v.size();
        for (size_t j = 0; ok && j < x.v.size(); ++j)
            ok = x.exact ? (x.v[j] == y.v[j]) : !(std::abs(x.v[j] - y.v[j]) > 3e-3);
        ++nOut;
        if (!ok) {
            std::string s = "step " + std::to_string(i) + " " + OpV(tr["steps"][i]["op"]).str() + ": the same program with the same seed observed";
            for (auto* o : { &x, &y }) {
                s += " [";
                for (size_t j = 0; j < o->v.size() && j < 24; ++j)
                    s += std::to_string(o->v[j]).substr(0, 7) + " ";
                s += o->threw ? "exception]" : "]";
            }
            throw Viol(s);
        }
    }
}

static void runTrace(const js::V& tr, const Stack& st, uint32_t seed, uint32_t idx)
{
    const uint32_t hh = mix(seed * 1000003u + idx);
    World w[2];
    for (int i = 0; i < 2; ++i)
        w[i].rng = std::make_shared<qrack_rand_gen>(hh % 1000 + (((hh >> 12) & 1) ? i : 0));
    // worlds that start from different generators are seeded before the first random step
    const bool seedFirst = (hh >> 12) & 1;
    const auto& steps = tr["steps"].a;
    auto advance = [&](int i, size_t to) {
        // what else lives in the process must not matter
        if (i)
            for (int k = 0; k < 40; ++k) {
                w[i].junk.emplace_back(new char[16 + mix(hh + k) % 700]);
                if (mix(hh + 99 * k) & 1)
                    w[i].junk[mix(hh + 7 * k) % w[i].junk.size()].reset();
            }
        while (w[i].pc < to && !w[i].dead) {
            curInfo = "step " + std::to_string(w[i].pc) + " world " + std::to_string(i) + " " + OpV(steps[w[i].pc]["op"]).str();
            runStep(w[i], steps[w[i].pc], st, mix(hh + 77u * w[i].pc), i);
            if (seedFirst && w[i].pc == 0)
                w[i].r[steps[0]["r"].i()]->SetRandomSeed(hh % 77);
            ++w[i].pc;
        }
    };
    for (size_t i = 0; i < steps.size(); ++i) {
        advance(0, i + 1);
        if (steps[i].has("w") && steps[i]["w"].b) {
            advance(1, i + 1);
            compare(w[0], w[1], tr);
        }
    }
    advance(1, steps.size());
    compare(w[0], w[1], tr);
    for (int x = 0; x < 2; ++x) {
        if (w[0].dead || !w[0].r[x])
            continue;
        curInfo = "(end)";
        if (w[0].r[x]->GetQubitCount() != w[1].r[x]->GetQubitCount())
            throw Viol("register widths differ");
        if (dist(stateOf(w[0].r[x]), stateOf(w[1].r[x]), false) > 3e-3)
            throw Viol("the same program with the same seed ended in different states");
    }
}

static void onSig(int sig)
{
    char b[64];
    int n = snprintf(b, sizeof b, "\nSIGNAL %d ", sig);
    (void)!write(1, b, n);
    (void)!write(1, curInfo.c_str(), curInfo.size());
    (void)!write(1, "\n", 1);
    _exit(128 + sig);
}

int main(int argc, char** argv)
{
    Stack st = stackOf(argv[1]);
    std::ifstream f(argv[2]);
    const uint32_t seed = (uint32_t)atoi(argv[4]);
    const int from = atoi(argv[5]), maxFail = atoi(argv[6]);
    for (int sg : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM })
        signal(sg, onSig);
    std::string line;
    int idx = -1, fails = 0, ok = 0;
    while (std::getline(f, line)) {
        if (++idx < from || line.empty())
            continue;
        js::V tr = js::parse(line);
        printf("@%d\n", idx);
        fflush(stdout);
        alarm(20);
        try {
            runTrace(tr, st, seed, getenv("QR_IDX") ? (uint32_t)atoi(getenv("QR_IDX")) : (uint32_t)idx);
            ++ok;
        } catch (const Unsupported& e) {
            ++nUnsup;
            ++unsupBy[e.what()];
        } catch (const std::exception& e) {
            printf("FAIL %d | %s | %s\n", idx, curInfo.c_str(), e.what());
            ++fails;
        }
        alarm(0);
        fflush(stdout);
        if (fails >= maxFail)
            break;
    }
    printf("STAT {\"ok\":%d,\"fail\":%d,\"steps\":%ld,\"observations\":%ld,\"random\":%ld,\"seedings\":%ld,\"threw\":%ld,\"unsupported\":%ld}\n",
        ok, fails, nSteps, nOut, nRand, nSeed, nThrow, nUnsup);
    for (auto& x : unsupBy)
        printf("UNSUP %s %ld\n", x.first.c_str(), x.second);
    printf("DONE\n");
    return 0;
}
