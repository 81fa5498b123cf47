// Controlled scheduler for the threaded parts: threads started inside sched::run() run one at a time, and every
// synchronisation call (pthread mutexes, condition variables, futex waits, thread creation and joining) and - in code
// compiled with -fsanitize=thread, whose instrumentation calls are answered here - every memory access is a point at
// which the next thread to run is chosen by the strategy.
#pragma once
#include <cstdint>
#include <functional>
namespace sched {
struct Cfg {
    uint64_t seed;
    int mode; // 0: random with stickiness, 1: priorities with change points
    int stick; // random: switch with probability 1/stick at a point
    int depth; // priorities: number of change points
    int len; // priorities: expected number of points
    bool spurious; // let condition waits return spuriously now and then
};
// runs body as controlled thread 0; returns number of points passed. onStuck is called when nothing can run
// (with every other thread blocked for ever); it must not return.
long run(const Cfg& c, const std::function<void()>& body, void (*onStuck)(const char* what));
void point();
int self();
bool active();
}
