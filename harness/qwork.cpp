// Runs client programs against the real DispatchQueue under controlled schedules and writes the distinct event traces.
// qwork PROGRAMS.jsonl OUT.jsonl SEED SCHEDULES FROM TO
#include "common/dispatchqueue.hpp"
#include "json.hpp"
#include "sched.hpp"
#include <csignal>
#include <cstdio>
#include <fstream>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <unistd.h>
#include <unordered_set>
#include <vector>

static char ev[1 << 16];
static size_t evn;
static std::string head;
static std::unordered_set<std::string>* seen;
static FILE* out;
static long total, distinct;
static void rec(const char* e, int k, int b = 0)
{
    if (evn + 32 < sizeof(ev))
        evn += (size_t)sprintf(ev + evn, "%s[\"%s\",%d,%d]", evn ? "," : "", e, k, b);
}
static void flushTrace(uint64_t seed)
{
    ++total;
    std::string t = head + std::string(ev, evn);
    if (seen->insert(t).second) {
        ++distinct;
        fprintf(out, "{%s,\"seed\":%llu,\"ev\":[%.*s]}\n", head.c_str(), (unsigned long long)seed, (int)evn, ev);
    }
    evn = 0;
}
static uint64_t curSeed;
static int curProg;
static void stuckFn(const char* what)
{
    rec("stuck", 0, what[0] == 'l');
    flushTrace(curSeed);
    fclose(out);
    printf("STUCK %d %llu\n", curProg, (unsigned long long)curSeed);
    fflush(stdout);
    _exit(3);
}
static void crash(int s)
{
    rec("crash", s);
    flushTrace(curSeed);
    fclose(out);
    printf("STUCK %d %llu\n", curProg, (unsigned long long)curSeed);
    fflush(stdout);
    _exit(3);
}

struct Prog {
    std::vector<std::vector<std::string>> clients;
    bool wait;
};

static void runProg(const Prog& p)
{
    int next = 0;
    std::function<void(bool, int)> give;
    {
        Qrack::DispatchQueue q;
        give = [&](bool nest, int pts) {
            const int k = next++;
            rec("dc", k);
            q.dispatch([&, k, nest, pts]() {
                rec("s", k);
                for (int i = 0; i < pts; ++i)
                    sched::point();
                if (nest)
                    give(false, 1);
                sched::point();
                rec("e", k);
            });
            rec("dr", k);
        };
        int w = 0;
        auto op = [&](const std::string& o) {
            if (o == "D")
                give(false, 1);
            else if (o == "L")
                give(false, 12);
            else if (o == "N")
                give(true, 1);
            else if (o == "F") {
                const int id = w++;
                rec("fc", id);
                q.finish();
                rec("fr", id);
            } else if (o == "X") {
                const int id = w++;
                rec("xc", id);
                q.dump();
                rec("xr", id);
            } else if (o == "P") {
                const int id = w++;
                rec("pc", id);
                sched::point();
                const bool b = q.isFinished();
                sched::point();
                rec("pr", id, b);
            }
        };
        std::vector<std::thread> th;
        for (size_t c = 1; c < p.clients.size(); ++c)
            th.emplace_back([&, c]() {
                for (const std::string& o : p.clients[c]) {
                    sched::point();
                    op(o);
                }
            });
        for (const std::string& o : p.clients[0])
            op(o);
        for (auto& t : th)
            t.join();
        if (p.wait)
            op("F");
        rec("zc", 0);
    }
    rec("zr", 0);
}

int main(int argc, char** argv)
{
    std::ifstream in(argv[1]);
    out = fopen(argv[2], "a");
    const uint64_t seed0 = strtoull(argv[3], nullptr, 10);
    const long nsched = atol(argv[4]);
    const int from = atoi(argv[5]), to = atoi(argv[6]);
    const long sfrom = (argc > 7) ? atol(argv[7]) : 0;
    seen = new std::unordered_set<std::string>();
    signal(SIGSEGV, crash);
    signal(SIGABRT, crash);
    std::string line;
    for (int i = 0; std::getline(in, line); ++i) {
        if (i < from || i >= to)
            continue;
        js::V v = js::parse(line);
        Prog p;
        for (auto& c : v["clients"].a) {
            p.clients.emplace_back();
            for (auto& o : c.a)
                p.clients.back().push_back(o.s);
        }
        p.wait = v["wait"].i() != 0;
        head = "\"prog\":" + std::to_string(i);
        curProg = i;
        for (long s = (i == from) ? sfrom : 0; s < nsched; ++s) {
            sched::Cfg c;
            c.seed = seed0 * 1000003ULL + (uint64_t)i * 7919ULL + (uint64_t)s * 104729ULL;
            c.mode = s % 2;
            const int sticks[] = { 1, 2, 4, 16, 64, 8 };
            c.stick = sticks[(s / 2) % 6];
            c.depth = 1 + (s / 2) % 5;
            c.len = 40 + 60 * (int)p.clients.size() * ((s / 8) % 4 + 1);
            c.spurious = (s / 4) % 3 == 0;
            curSeed = (uint64_t)s;
            evn = 0;
            sched::run(c, [&]() { runProg(p); }, stuckFn);
            flushTrace((uint64_t)s);
        }
    }
    fclose(out);
    printf("DONE %ld %ld\n", total, distinct);
    return 0;
}
