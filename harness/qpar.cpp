// Runs the parallel loops of cases produced from QPar.tla under controlled schedules: the body must be called exactly
// once for every index of the case and for no other, thread numbers must be valid and not shared by two calls at a
// time, and everything must be over when the loop returns.
// qpar CASES.jsonl SEED SCHEDULES FROM MAXFAIL
#include "common/parallel_for.hpp"
#include "statevector.hpp"
#include "json.hpp"
#include "sched.hpp"
#include <algorithm>
#include <csignal>
#include <cstdio>
#include <fstream>
#include <set>
#include <unistd.h>
using namespace Qrack;

static int idx;
static long sch;
static void stuckFn(const char* what)
{
    printf("FAIL %d | schedule %ld | the loop never returns (%s)\n", idx, sch, what);
    fflush(stdout);
    _exit(3);
}
static void crash(int s)
{
    printf("FAIL %d | schedule %ld | signal %d\n", idx, sch, s);
    fflush(stdout);
    _exit(3);
}
static const int MAXI = 4096;
static int cnt[MAXI], busy[256];
static long outside, calls, active, badCpu, sharedCpu, late;
static bool returned;

int main(int argc, char** argv)
{
    std::ifstream in(argv[1]);
    const uint64_t seed0 = strtoull(argv[2], nullptr, 10);
    const long nsched = atol(argv[3]);
    const int from = atoi(argv[4]), maxFail = atoi(argv[5]);
    signal(SIGSEGV, crash);
    signal(SIGABRT, crash);
    std::string line;
    long ok = 0, steps = 0;
    int fails = 0;
    for (idx = 0; std::getline(in, line); ++idx) {
        if (idx < from || line.empty())
            continue;
        printf("@%d\n", idx);
        fflush(stdout);
        js::V v = js::parse(line);
        const std::string f = v["f"].s;
        auto k = [&](size_t i) { return (bitCapIntOcl)v["k"][i].i(); };
        setenv("QRACK_PSTRIDEPOW", std::to_string(v["sp"].i()).c_str(), 1);
        const unsigned cores = (unsigned)v["cores"].i();
        ParallelFor pf;
        pf.SetConcurrencyLevel(cores);
        std::vector<bitCapIntOcl> lo, hi, want;
        for (auto& x : v["lo"].a)
            lo.push_back((bitCapIntOcl)x.i());
        for (auto& x : v["hi"].a)
            hi.push_back((bitCapIntOcl)x.i());
        for (auto& x : v["vis"].a)
            want.push_back((bitCapIntOcl)x.i());
        std::set<bitCapIntOcl> los(lo.begin(), lo.end());
        std::vector<bitCapIntOcl> masks;
        for (bitCapIntOcl b : lo)
            masks.push_back(pow2Ocl((bitLenInt)b));
        StateVectorArrayPtr sv;
        if (!v["amps"].a.empty()) {
            sv = std::make_shared<StateVectorArray>((bitCapIntOcl)v["amps"].size());
            for (size_t i = 0; i < v["amps"].size(); ++i)
                sv->write(i, complex((real1)v["amps"][i][0].n, (real1)v["amps"][i][1].n));
        }
        bool bad = false;
        for (sch = 0; sch < nsched && !bad; ++sch) {
            std::fill(cnt, cnt + MAXI, 0);
            std::fill(busy, busy + 256, 0);
            outside = calls = active = badCpu = sharedCpu = late = 0;
            returned = false;
            ParallelFunc fn = [cores](const bitCapIntOcl& i, const unsigned& cpu) {
                const unsigned c = cpu;
                const bitCapIntOcl x = i;
                ++calls;
                ++active;
                if (returned)
                    ++late;
                if (c >= cores || c >= 256)
                    ++badCpu;
                else if (busy[c]++)
                    ++sharedCpu;
                sched::point();
                if (x >= (bitCapIntOcl)MAXI)
                    ++outside;
                else
                    ++cnt[x];
                sched::point();
                if (c < 256)
                    --busy[c];
                --active;
            };
            double sum = 0;
            sched::Cfg c;
            c.seed = seed0 * 1000003ULL + (uint64_t)idx * 7919ULL + (uint64_t)sch * 104729ULL;
            c.mode = sch % 2;
            const int sticks[] = { 1, 2, 4, 16, 64, 8 };
            c.stick = sticks[(sch / 2) % 6];
            c.depth = 1 + (sch / 2) % 5;
            c.len = 60 << ((sch / 8) % 4);
            c.spurious = false;
            long activeAtReturn = 0;
            steps += sched::run(
                c,
                [&]() {
                    if (f == "for")
                        pf.par_for(k(0), k(1), fn);
                    else if (f == "skip")
                        pf.par_for_skip(0U, pow2Ocl((bitLenInt)k(0)), pow2Ocl((bitLenInt)k(1)), (bitLenInt)k(2), fn);
                    else if (f == "mask")
                        pf.par_for_mask(0U, pow2Ocl((bitLenInt)k(0)), masks, fn);
                    else if (f == "set")
                        pf.par_for_set(los, fn);
                    else if (f == "vec")
                        pf.par_for_set(lo, fn);
                    else if (f == "compose")
                        pf.par_for_sparse_compose(lo, hi, (bitLenInt)k(0), fn);
                    else if (f == "norm")
                        sum = (double)pf.par_norm(pow2Ocl((bitLenInt)k(0)), sv, (real1_f)(k(1) - 0.5));
                    else if (f == "exact")
                        sum = (double)pf.par_norm_exact(pow2Ocl((bitLenInt)k(0)), sv);
                    activeAtReturn = active;
                    returned = true;
                },
                stuckFn);
            std::string why;
            if (sv) {
                if (std::abs(sum - v["sum"].n) > 1e-3)
                    why = "sum " + std::to_string(sum) + " want " + std::to_string(v["sum"].i());
            } else {
                if (outside)
                    why = "index far outside the range";
                size_t w = 0;
                for (int i = 0; i < MAXI && why.empty(); ++i) {
                    int e = 0;
                    while (w < want.size() && want[w] == (bitCapIntOcl)i) {
                        ++e;
                        ++w;
                    }
                    if (cnt[i] != e)
                        why = "index " + std::to_string(i) + " visited " + std::to_string(cnt[i]) + " times, want " + std::to_string(e);
                }
                if (badCpu)
                    why = "thread number out of range";
                if (sharedCpu)
                    why = "two calls at a time with one thread number";
            }
            if (activeAtReturn || late)
                why = "returned before all calls were over";
            if (!why.empty()) {
                printf("FAIL %d | schedule %ld | %s\n", idx, sch, why.c_str());
                bad = true;
                ++fails;
            }
            ok += why.empty();
        }
        if (fails >= maxFail)
            break;
    }
    printf("STAT {\"ok\":%ld,\"fail\":%d,\"steps\":%ld}\nDONE\n", ok, fails, steps);
    return 0;
}
