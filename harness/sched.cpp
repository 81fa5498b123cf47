#include "sched.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <ctime>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <sched.h>

namespace {
enum St { FREE, READY, MUTEX, CV, TIMEDCV, JOIN, FUTEX, RDLOCK, WRLOCK, DONE };
const int MAXT = 64, MAXM = 256;
struct Thr {
    St st;
    const void* obj;
    int joinId;
    int prio;
    bool signaled;
    pthread_t tid;
    void* (*fn)(void*);
    void* arg;
    int sem; // futex word: 1 = has the token
};
struct Mtx {
    const void* a;
    int owner; // -1 free
    int count; // recursion / readers
};
Thr T[MAXT];
int nT;
Mtx M[MAXM];
int nM;
int cur;
volatile bool on;
uint64_t rng;
long steps;
int maxPrioLow;
long change[16];
sched::Cfg cfg;
void (*stuck)(const char*);
__thread int me = -1;
__thread int inside = 0;

uint64_t rnd()
{
    rng ^= rng << 13;
    rng ^= rng >> 7;
    rng ^= rng << 17;
    return rng * 0x2545F4914F6CDD1DULL;
}
unsigned rndn(unsigned n) { return (unsigned)((rnd() >> 33) % n); }

#define REAL(name) ((decltype(&name))real_##name())
#define DEFREAL(name)                                                                                                  \
    static void* real_##name()                                                                                         \
    {                                                                                                                  \
        static void* p = nullptr;                                                                                      \
        if (!p)                                                                                                        \
            p = dlsym(RTLD_NEXT, #name);                                                                               \
        return p;                                                                                                      \
    }
DEFREAL(pthread_mutex_lock)
DEFREAL(pthread_mutex_trylock)
DEFREAL(pthread_mutex_unlock)
DEFREAL(pthread_cond_wait)
DEFREAL(pthread_cond_timedwait)
DEFREAL(pthread_cond_signal)
DEFREAL(pthread_cond_broadcast)
DEFREAL(pthread_create)
DEFREAL(pthread_join)
DEFREAL(pthread_rwlock_rdlock)
DEFREAL(pthread_rwlock_wrlock)
DEFREAL(pthread_rwlock_unlock)
DEFREAL(syscall)
DEFREAL(sched_yield)
void* real_clockwait()
{
    static void* p = dlsym(RTLD_NEXT, "pthread_cond_clockwait");
    return p;
}

long rawsys(long n, long a, long b, long c, long d, long e, long f)
{
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
void give(int t)
{
    __atomic_store_n(&T[t].sem, 1, __ATOMIC_SEQ_CST);
    rawsys(SYS_futex, (long)&T[t].sem, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
void take(int t)
{
    int spin = 0;
    while (!__atomic_load_n(&T[t].sem, __ATOMIC_SEQ_CST)) {
        if (++spin > 200)
            rawsys(SYS_futex, (long)&T[t].sem, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    }
    __atomic_store_n(&T[t].sem, 0, __ATOMIC_SEQ_CST);
}
Mtx& mtx(const void* a)
{
    for (int i = 0; i < nM; ++i)
        if (M[i].a == a)
            return M[i];
    // reuse a free slot first
    for (int i = 0; i < nM; ++i)
        if (M[i].owner == -1 && !M[i].count) {
            M[i].a = a;
            return M[i];
        }
    if (nM == MAXM) {
        fprintf(stderr, "sched: too many mutexes\n");
        _exit(9);
    }
    M[nM] = Mtx{ a, -1, 0 };
    return M[nM++];
}
void wakeAll(St s, const void* a)
{
    for (int i = 0; i < nT; ++i)
        if (T[i].st == s && T[i].obj == a)
            T[i].st = READY;
}
int pick(bool mustSwitch)
{
    int en[MAXT], n = 0;
    for (int i = 0; i < nT; ++i)
        if (T[i].st == READY && !(mustSwitch && i == me))
            en[n++] = i;
    if (cfg.spurious && (!n || !rndn(64)))
        for (int i = 0; i < nT; ++i)
            if (T[i].st == CV && n && !rndn(4))
                en[n++] = i; // spurious wake
    // a timed wait may end by its time limit
    if (!n || !rndn(16))
        for (int i = 0; i < nT; ++i)
            if (T[i].st == TIMEDCV)
                en[n++] = i;
    if (!n)
        return (mustSwitch && me >= 0 && T[me].st == READY) ? me : -1;
    const bool fair = steps > 100000;
    if (cfg.mode == 0 || fair)
        return en[rndn(n)];
    int b = en[0];
    for (int i = 1; i < n; ++i)
        if (T[en[i]].prio > T[b].prio)
            b = en[i];
    return b;
}
// the caller holds the token; its own state says whether it can go on
void reschedule(bool forced, bool mustSwitch = false)
{
    ++steps;
    if (steps > 3000000) {
        stuck("livelock");
        _exit(8);
    }
    if (cfg.mode == 1)
        for (int i = 0; i < cfg.depth; ++i)
            if (steps == change[i])
                T[me].prio = --maxPrioLow;
    if (!forced && !mustSwitch && cfg.mode == 0 && rndn(cfg.stick))
        return;
    int n = pick(mustSwitch);
    if (n < 0) {
        stuck("deadlock");
        _exit(8);
    }
    if (T[n].st == CV || T[n].st == TIMEDCV)
        T[n].st = READY;
    if (n == me)
        return;
    cur = n;
    const int self = me;
    const bool over = T[self].st == DONE; // after give() another thread may change it
    give(n);
    if (over)
        return;
    take(self);
}
struct In {
    In() { ++inside; }
    ~In() { --inside; }
};
bool ctl() { return on && me >= 0 && !inside; }

void lockBody(const void* m)
{
    for (;;) {
        Mtx& x = mtx(m);
        if (x.owner == -1 && !x.count) {
            x.owner = me;
            x.count = 1;
            return;
        }
        T[me].st = MUTEX;
        T[me].obj = m;
        reschedule(true);
    }
}
void unlockBody(const void* m)
{
    Mtx& x = mtx(m);
    x.owner = -1;
    x.count = 0;
    wakeAll(MUTEX, m);
}
bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
void* trampoline(void* p)
{
    const int id = (int)(long)p;
    me = id;
    ++inside;
    take(id);
    --inside;
    void* r = T[id].fn(T[id].arg);
    ++inside;
    T[id].st = DONE;
    for (int i = 0; i < nT; ++i)
        if (T[i].st == JOIN && T[i].joinId == id)
            T[i].st = READY;
    reschedule(true);
    me = -1;
    return r;
}
int cvWait(const void* c, pthread_mutex_t* m, bool timed)
{
    In g;
    reschedule(false);
    unlockBody(m);
    T[me].st = timed ? TIMEDCV : CV;
    T[me].obj = c;
    T[me].signaled = false;
    reschedule(true);
    const bool s = T[me].signaled;
    lockBody(m);
    return (timed && !s) ? ETIMEDOUT : 0;
}
} // namespace

namespace sched {
bool active() { return on && me >= 0; }
int self() { return me; }
void point()
{
    if (!ctl())
        return;
    In g;
    reschedule(false);
}
long run(const Cfg& c, const std::function<void()>& body, void (*onStuck)(const char*))
{
    cfg = c;
    if (cfg.depth > 16)
        cfg.depth = 16;
    stuck = onStuck;
    rng = c.seed * 0x9E3779B97F4A7C15ULL + 0x1234567;
    for (int i = 0; i < 8; ++i)
        rnd();
    nT = 1;
    nM = 0;
    steps = 0;
    maxPrioLow = 0;
    memset(T, 0, sizeof(T));
    T[0].st = READY;
    T[0].prio = 1000 + rndn(1000);
    for (int i = 0; i < cfg.depth; ++i)
        change[i] = 1 + rndn(cfg.len);
    me = 0;
    cur = 0;
    on = true;
    body();
    // let the rest finish
    ++inside;
    for (;;) {
        bool any = false;
        for (int i = 1; i < nT; ++i)
            any |= (T[i].st != DONE) && (T[i].st != FREE);
        if (!any)
            break;
        // a thread nobody joined
        T[0].st = JOIN;
        for (int i = 1; i < nT; ++i)
            if ((T[i].st != DONE) && (T[i].st != FREE)) {
                T[0].joinId = i;
                break;
            }
        reschedule(true);
    }
    on = false;
    --inside;
    me = -1;
    return steps;
}
} // namespace sched

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!ctl())
        return REAL(pthread_mutex_lock)(m);
    In g;
    reschedule(false);
    if (recursive(m)) {
        Mtx& x = mtx(m);
        if (x.owner == me) {
            ++x.count;
            return 0;
        }
    }
    lockBody(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!ctl())
        return REAL(pthread_mutex_trylock)(m);
    In g;
    reschedule(false);
    Mtx& x = mtx(m);
    if (recursive(m) && x.owner == me) {
        ++x.count;
        return 0;
    }
    if (x.owner != -1 || x.count)
        return EBUSY;
    lockBody(m);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!ctl())
        return REAL(pthread_mutex_unlock)(m);
    In g;
    Mtx& x = mtx(m);
    if (x.owner == me && x.count > 1) {
        --x.count;
        return 0;
    }
    unlockBody(m);
    reschedule(false);
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!ctl())
        return REAL(pthread_cond_wait)(c, m);
    return cvWait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
    if (!ctl())
        return REAL(pthread_cond_timedwait)(c, m, t);
    return cvWait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{
    if (!ctl())
        return ((int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*))real_clockwait())(c, m, k, t);
    return cvWait(c, m, true);
}
static void cvWake(const void* c, bool all)
{
    int w[MAXT], n = 0;
    for (int i = 0; i < nT; ++i)
        if ((T[i].st == CV || T[i].st == TIMEDCV) && T[i].obj == c)
            w[n++] = i;
    if (!n)
        return;
    const int b = all ? 0 : (int)rndn(n), e = all ? n : b + 1;
    for (int i = b; i < e; ++i) {
        T[w[i]].signaled = true;
        T[w[i]].st = READY;
    }
}
int pthread_cond_signal(pthread_cond_t* c)
{
    if (!ctl())
        return REAL(pthread_cond_signal)(c);
    In g;
    reschedule(false);
    cvWake(c, false);
    reschedule(false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!ctl())
        return REAL(pthread_cond_broadcast)(c);
    In g;
    reschedule(false);
    cvWake(c, true);
    reschedule(false);
    return 0;
}
static void rwLock(pthread_rwlock_t* m, bool wr)
{
    In g;
    reschedule(false);
    for (;;) {
        Mtx& x = mtx(m);
        if (wr ? (x.owner == -1 && !x.count) : (x.owner == -1)) {
            if (wr)
                x.owner = me;
            ++x.count;
            return;
        }
        T[me].st = MUTEX;
        T[me].obj = m;
        reschedule(true);
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!ctl())
        return REAL(pthread_rwlock_rdlock)(m);
    rwLock(m, false);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!ctl())
        return REAL(pthread_rwlock_wrlock)(m);
    rwLock(m, true);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (!ctl())
        return REAL(pthread_rwlock_unlock)(m);
    In g;
    Mtx& x = mtx(m);
    x.owner = -1;
    if (--x.count <= 0) {
        x.count = 0;
        wakeAll(MUTEX, m);
    }
    reschedule(false);
    return 0;
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
    if (!ctl())
        return REAL(pthread_create)(t, a, fn, arg);
    In g;
    int id = 1;
    while (id < nT && T[id].st != FREE)
        ++id;
    if (id == MAXT) {
        fprintf(stderr, "sched: too many threads\n");
        _exit(9);
    }
    T[id] = Thr{};
    T[id].fn = fn;
    T[id].arg = arg;
    T[id].prio = 1000 + rndn(1000);
    T[id].st = READY;
    if (id == nT)
        ++nT;
    const int r = REAL(pthread_create)(&T[id].tid, a, trampoline, (void*)(long)id);
    *t = T[id].tid;
    reschedule(false);
    return r;
}
int pthread_join(pthread_t t, void** r)
{
    if (!ctl())
        return REAL(pthread_join)(t, r);
    {
        In g;
        int id = -1;
        for (int i = nT - 1; i >= 0; --i)
            if (i && T[i].st != FREE && pthread_equal(T[i].tid, t)) {
                id = i;
                break;
            }
        reschedule(false);
        while (id >= 0 && T[id].st != DONE) {
            T[me].st = JOIN;
            T[me].joinId = id;
            reschedule(true);
        }
        if (id >= 0)
            T[id].st = FREE;
    }
    return REAL(pthread_join)(t, r);
}
int sched_yield(void)
{
    if (!ctl())
        return (int)rawsys(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    In g;
    T[me].prio = --maxPrioLow;
    reschedule(true, true);
    return 0;
}
int clock_nanosleep(clockid_t k, int f, const struct timespec* a, struct timespec* b)
{
    if (!ctl())
        return (int)-rawsys(SYS_clock_nanosleep, k, f, (long)a, (long)b, 0, 0);
    return sched_yield();
}
int nanosleep(const struct timespec* a, struct timespec* b)
{
    if (!ctl())
        return rawsys(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0) ? -1 : 0;
    return sched_yield();
}
long syscall(long n, ...) noexcept
{
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (int i = 0; i < 6; ++i)
        a[i] = va_arg(ap, long);
    va_end(ap);
    if (ctl() && n == SYS_futex) {
        In g;
        const int op = (int)a[1] & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            reschedule(false);
            if (*(volatile int*)a[0] != (int)a[2]) {
                errno = EAGAIN;
                return -1;
            }
            T[me].st = a[3] ? TIMEDCV : FUTEX;
            T[me].obj = (void*)a[0];
            reschedule(true);
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            reschedule(false);
            wakeAll(FUTEX, (void*)a[0]);
            wakeAll(TIMEDCV, (void*)a[0]);
            reschedule(false);
            return 1;
        }
    }
    const long r = rawsys(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

// instrumentation calls of code compiled with -fsanitize=thread
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(n)                                                                                                         \
    void __tsan_##n(void*) { sched::point(); }
ACC(read1) ACC(read2) ACC(read4) ACC(read8) ACC(read16) ACC(write1) ACC(write2) ACC(write4) ACC(write8) ACC(write16)
ACC(unaligned_read2) ACC(unaligned_read4) ACC(unaligned_read8) ACC(unaligned_read16) ACC(unaligned_write2) ACC(unaligned_write4)
ACC(unaligned_write8) ACC(unaligned_write16) ACC(vptr_read)
ACC(volatile_read1) ACC(volatile_read2) ACC(volatile_read4) ACC(volatile_read8) ACC(volatile_write1) ACC(volatile_write2) ACC(volatile_write4) ACC(volatile_write8)
void __tsan_vptr_update(void**, void*) { sched::point(); }
void __tsan_read_range(void*, long) { sched::point(); }
void __tsan_write_range(void*, long) { sched::point(); }
#define ATOM(bits, type)                                                                                               \
    type __tsan_atomic##bits##_load(const volatile type* a, int) { sched::point(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); }     \
    void __tsan_atomic##bits##_store(volatile type* a, type v, int) { sched::point(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }     \
    type __tsan_atomic##bits##_exchange(volatile type* a, type v, int) { sched::point(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_add(volatile type* a, type v, int) { sched::point(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_sub(volatile type* a, type v, int) { sched::point(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_and(volatile type* a, type v, int) { sched::point(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_or(volatile type* a, type v, int) { sched::point(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }   \
    type __tsan_atomic##bits##_fetch_xor(volatile type* a, type v, int) { sched::point(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile type* a, type* c, type v, int, int) { sched::point(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile type* a, type* c, type v, int, int) { sched::point(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }   \
    type __tsan_atomic##bits##_compare_exchange_val(volatile type* a, type c, type v, int, int) { sched::point(); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) { sched::point(); }
void __tsan_atomic_signal_fence(int) {}
}
