// A deterministic, controlled scheduler for unmodified pthread code.
//
// The code under test is compiled with -fsanitize=thread but linked against this file instead of
// libtsan: every memory access it makes calls one of the __tsan_* functions below, which turns it
// into a scheduling point. Thread creation/join, mutexes, condition variables, sleeping, yielding and
// POSIX AIO are replaced as well. Exactly one thread runs at any time; who runs next is decided by a
// generator seeded with $CSCHED_SEED, so one seed is one schedule and can be replayed. Nondeterminism
// that POSIX allows (which waiter a signal wakes, time-outs of timed waits, spurious wake-ups, when
// an asynchronous write completes and when it reads its buffer) is drawn from the same generator.
//
// $CSCHED_SEED unset: pass-through ("native") mode; the real functions are called.
//
// exit codes: 97 deadlock (nothing can run), 98 step limit (no progress), 99 internal limits.
#include "csched.h"
#include <aio.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#define EXPORT extern "C" __attribute__((visibility("default"), no_sanitize("thread")))
#define NOSAN __attribute__((no_sanitize("thread")))

namespace {

enum { FREE, RUNNABLE, ON_MUTEX, ON_COND, ON_JOIN, DONE };
struct Thr {
    int state;
    void *obj;
    bool timed, timedOut;
    uint64_t stallUntil;
    sem_t sem;
    pthread_t handle;
    void *(*fn)(void *);
    void *arg;
    char *stackLo, *stackHi;
    int noPreempt;
    int heldFor;
    uint64_t forced;
};
const int MAXT = 256;
Thr T[MAXT];
int nT = 0;
int mode = -1;  // -1 unknown, 0 native, 1 controlled
uint64_t rngs;
uint64_t steps, switches, limit_ = 40000000ull;
uint32_t pSwitch;   // switch probability, in 1/65536
uint32_t pStall;    // stall probability, in 1/65536
uint32_t maxStall;
uint64_t execd;  // scheduling points actually executed (steps also counts skipped waiting time)
uint32_t pSpurious; // spurious wake-up probability at a switch, 1/65536
uint32_t pAio;      // probability that a poll sees the write complete, 1/65536
int aioAtSubmit;
pthread_key_t key;
__thread int self = -1;
int running = 0;

struct Mx { void *m; int owner; };
const int MAXM = 4096;
Mx mx[MAXM];

NOSAN inline uint32_t rnd() {
    rngs ^= rngs << 13; rngs ^= rngs >> 7; rngs ^= rngs << 17;
    return (uint32_t)(rngs >> 16);
}
NOSAN inline bool chance(uint32_t p) { return (rnd() & 0xffff) < p; }

template <typename F> NOSAN F real(const char *name, F) {
    return (F)dlsym(RTLD_NEXT, name);
}
#define REAL(fn) static auto real_##fn = real(#fn, &fn)

NOSAN void die(int code, const char *why) {
    char b[300];
    int n = snprintf(b, sizeof b, "CSCHED: %s after %lu steps, %d threads\n", why, (unsigned long)steps, nT);
    for (int i = 0; i < nT && n < 250; ++i) n += snprintf(b + n, sizeof b - n, " t%d:%d", i, T[i].state);
    if (write(2, b, n) < 0) {}
    if (write(2, "\n", 1) < 0) {}
    _exit(code);
}

NOSAN void keyDtor(void *);

NOSAN void stackOf(Thr &t) {
    pthread_attr_t a;
    void *base; size_t sz;
    if (pthread_getattr_np(pthread_self(), &a) == 0) {
        pthread_attr_getstack(&a, &base, &sz);
        t.stackLo = (char *)base; t.stackHi = (char *)base + sz;
        pthread_attr_destroy(&a);
    }
}

NOSAN void init() {
    if (mode >= 0) return;
    const char *s = getenv("CSCHED_SEED");
    if (!s) { mode = 0; return; }
    mode = 1;
    uint64_t seed = strtoull(s, nullptr, 10);
    rngs = seed * 0x9E3779B97F4A7C15ull + 0x1234567ull;
    if (!rngs) rngs = 1;
    for (int i = 0; i < 20; ++i) rnd();
    if (const char *l = getenv("CSCHED_LIMIT")) limit_ = strtoull(l, nullptr, 10);
    static const uint32_t ps[] = {65536 / 3, 65536 / 8, 65536 / 20, 65536 / 60, 65536 / 200, 65536 / 1000};
    pSwitch = ps[rnd() % 6];
    static const uint32_t st[] = {0, 2, 20, 120};
    pStall = st[rnd() % 4];
    static const uint32_t ms[] = {50, 400, 3000, 30000};
    maxStall = ms[rnd() % 4];
    pSpurious = (rnd() % 4 == 0) ? 300 : 0;
    if (getenv("CSCHED_NOSPURIOUS")) pSpurious = 0;
    static const uint32_t pa[] = {65536, 32768, 8192, 1500, 200};
    pAio = pa[rnd() % 5];
    aioAtSubmit = rnd() & 1;
    nT = 1;
    self = 0;
    T[0].state = RUNNABLE;
    T[0].handle = pthread_self();
    sem_init(&T[0].sem, 0, 0);
    stackOf(T[0]);
    pthread_key_create(&key, keyDtor);
}

// Choose who runs next among all that can; the caller may itself be blocked.
NOSAN int pick() {
    for (int round = 0; round < 2; ++round) {
        int cand[MAXT], n = 0;
        bool any = false;
        uint64_t soonest = ~0ull;
        for (int i = 0; i < nT; ++i) {
            Thr &t = T[i];
            bool ok = t.state == RUNNABLE || (t.state == ON_COND && t.timed);
            if (!ok) continue;
            any = true;
            if (t.stallUntil > steps) { if (t.stallUntil < soonest) soonest = t.stallUntil; continue; }
            cand[n++] = i;
        }
        if (n) return cand[rnd() % n];
        if (!any) return -1;
        steps = soonest;  // everybody is stalled: let time pass
    }
    return -1;
}

NOSAN void switchTo(int next, bool wait) {
    int me = self;
    if (next == me) return;
    ++switches;
    if (T[me].noPreempt) ++T[me].forced;
    running = next;
    sem_post(&T[next].sem);
    if (wait) while (sem_wait(&T[me].sem) != 0) {}
}

NOSAN void resume(int i) {  // a picked thread that was in a timed wait times out
    Thr &t = T[i];
    if (t.state == ON_COND) { t.timedOut = true; t.state = RUNNABLE; t.obj = nullptr; }
}

// The calling thread cannot go on (or merely gives way): run somebody else.
NOSAN void yieldNow(bool final = false) {
    int n = pick();
    if (n < 0) {
        if (final) return;
        die(97, "deadlock: no thread can run");
    }
    resume(n);
    if (n != self) switchTo(n, !final);
}

NOSAN inline void point() {
    if (self < 0) return;
    ++steps;
    if (++execd > limit_ / 2) {
        // A long run: from here on schedule fairly, so that only a program that makes no progress at all hits the limit.
        if (execd > limit_) die(98, "step limit: no progress");
        pStall = 0; pAio = 65536;
        if (pSwitch < 65536 / 60) pSwitch = 65536 / 60;
    }
    if (T[self].noPreempt) {
        if (++T[self].heldFor < 3000) return;
        // It is waiting for another thread: schedule it like any other one until preemption is turned on again.
    }
    if (pStall && chance(pStall)) {
        T[self].stallUntil = steps + 1 + rnd() % maxStall;
        yieldNow();
        return;
    }
    if (chance(pSwitch)) {
        if (pSpurious && chance(pSpurious)) {
            int c[MAXT], n = 0;
            for (int i = 0; i < nT; ++i) if (T[i].state == ON_COND) c[n++] = i;
            if (n) { Thr &t = T[c[rnd() % n]]; t.state = RUNNABLE; t.obj = nullptr; t.timedOut = false; }
        }
        yieldNow();
    }
}

NOSAN inline void access_(const void *p) {
    if (mode != 1 || self < 0) return;
    Thr &t = T[self];
    if ((char *)p >= t.stackLo && (char *)p < t.stackHi) return;
    point();
}

NOSAN Mx *find(void *m, bool add) {
    uint32_t h = (uint32_t)(((uintptr_t)m >> 3) * 2654435761u) % MAXM;
    for (int i = 0; i < MAXM; ++i) {
        Mx &x = mx[(h + i) % MAXM];
        if (x.m == m) return &x;
        if (!x.m) {
            if (!add) return nullptr;
            x.m = m; x.owner = -1;
            return &x;
        }
    }
    die(99, "too many mutexes");
    return nullptr;
}

NOSAN void wakeMutex(void *m) {
    for (int i = 0; i < nT; ++i)
        if (T[i].state == ON_MUTEX && T[i].obj == m) { T[i].state = RUNNABLE; T[i].obj = nullptr; }
}
NOSAN void lockM(void *m) {
    Mx *x = find(m, true);
    while (x->owner >= 0) {
        T[self].state = ON_MUTEX; T[self].obj = m;
        yieldNow();
    }
    x->owner = self;
}
NOSAN void unlockM(void *m) {
    Mx *x = find(m, true);
    x->owner = -1;
    wakeMutex(m);
}

NOSAN void finishThread() {
    Thr &t = T[self];
    t.state = DONE;
    for (int i = 0; i < nT; ++i)
        if (T[i].state == ON_JOIN && T[i].obj == &t) { T[i].state = RUNNABLE; T[i].obj = nullptr; }
    int n = pick();
    int me = self;
    self = -1;
    if (n >= 0) { resume(n); ++switches; running = n; sem_post(&T[n].sem); }
    (void)me;
}
NOSAN void keyDtor(void *v) {
    // TLS destructors of C++ have run already (glibc order); this is the end of the thread.
    if (self >= 0) finishThread();
}

NOSAN void *tramp(void *a) {
    Thr *t = (Thr *)a;
    self = (int)(t - T);
    stackOf(*t);
    while (sem_wait(&t->sem) != 0) {}
    pthread_setspecific(key, t);
    return t->fn(t->arg);
}

NOSAN int condWait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
    point();
    Thr &t = T[self];
    unlockM(m);
    t.state = ON_COND; t.obj = c; t.timed = timed; t.timedOut = false;
    yieldNow();
    bool to = t.timedOut;
    t.timed = false;
    lockM(m);
    return to ? ETIMEDOUT : 0;
}

}  // namespace

EXPORT void csched_point(void) { if (mode == 1) point(); else sched_yield(); }
EXPORT uint64_t csched_steps(void) { return steps; }
EXPORT uint64_t csched_switches(void) { return switches; }
EXPORT int csched_active(void) { return mode == 1; }
EXPORT uint32_t csched_rand(uint32_t n) { return n ? rnd() % n : 0; }
EXPORT void csched_disable(void) { if (mode == 1 && self >= 0) { ++T[self].noPreempt; T[self].heldFor = 0; } }
EXPORT uint64_t csched_forced(void) { return self >= 0 ? T[self].forced : 0; }
EXPORT void csched_enable(void) { if (mode == 1 && self >= 0) --T[self].noPreempt; }

// ---- pthread replacements ----------------------------------------------------
EXPORT int pthread_create(pthread_t *h, const pthread_attr_t *at, void *(*fn)(void *), void *arg) noexcept {
    static int (*realCreate)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) =
        (decltype(realCreate))dlsym(RTLD_NEXT, "pthread_create");
    init();
    if (mode != 1 || self < 0) return realCreate(h, at, fn, arg);
    int i = -1;
    for (int k = 1; k < nT; ++k) if (T[k].state == FREE) { i = k; break; }
    if (i < 0) { if (nT >= MAXT) die(99, "too many threads"); i = nT++; sem_init(&T[i].sem, 0, 0); }
    Thr &t = T[i];
    t.fn = fn; t.arg = arg; t.obj = nullptr; t.stallUntil = 0; t.timed = false; t.noPreempt = 0; t.heldFor = 0; t.forced = 0;
    t.state = RUNNABLE;
    int r = realCreate(h, at, tramp, &t);
    if (r) { t.state = FREE; return r; }
    t.handle = *h;
    point();
    return 0;
}
EXPORT int pthread_join(pthread_t h, void **ret) {
    static int (*realJoin)(pthread_t, void **) = (decltype(realJoin))dlsym(RTLD_NEXT, "pthread_join");
    if (mode != 1 || self < 0) return realJoin(h, ret);
    point();
    for (int i = 0; i < nT; ++i) {
        Thr &t = T[i];
        if (t.state == FREE || !pthread_equal(t.handle, h) || i == self) continue;
        while (t.state != DONE) {
            T[self].state = ON_JOIN; T[self].obj = &t;
            yieldNow();
        }
        int r = realJoin(h, ret);
        t.state = FREE;
        t.handle = 0;
        return r;
    }
    return realJoin(h, ret);
}
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
    static int (*r)(pthread_mutex_t *) = (decltype(r))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (mode != 1 || self < 0) return r(m);
    point();
    lockM(m);
    return 0;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
    static int (*r)(pthread_mutex_t *) = (decltype(r))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
    if (mode != 1 || self < 0) return r(m);
    point();
    Mx *x = find(m, true);
    if (x->owner >= 0) return EBUSY;
    x->owner = self;
    return 0;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
    static int (*r)(pthread_mutex_t *) = (decltype(r))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    if (mode != 1 || self < 0) return r(m);
    Mx *x = find(m, false);
    if (!x || x->owner < 0) return r(m);  // locked before we took control
    unlockM(m);
    point();
    return 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    static int (*r)(pthread_cond_t *, pthread_mutex_t *) = (decltype(r))dlsym(RTLD_NEXT, "pthread_cond_wait");
    if (mode != 1 || self < 0) return r(c, m);
    return condWait(c, m, false);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    static int (*r)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *) =
        (decltype(r))dlsym(RTLD_NEXT, "pthread_cond_timedwait");
    if (mode != 1 || self < 0) return r(c, m, ts);
    return condWait(c, m, true);
}
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
    static int (*r)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *) =
        (decltype(r))dlsym(RTLD_NEXT, "pthread_cond_clockwait");
    if (mode != 1 || self < 0) return r(c, m, k, ts);
    return condWait(c, m, true);
}
static NOSAN void signal_(void *c, bool all) {
    int w[MAXT], n = 0;
    for (int i = 0; i < nT; ++i) if (T[i].state == ON_COND && T[i].obj == c) w[n++] = i;
    if (!n) return;
    if (!all) { w[0] = w[rnd() % n]; n = 1; }
    for (int i = 0; i < n; ++i) { Thr &t = T[w[i]]; t.state = RUNNABLE; t.obj = nullptr; t.timedOut = false; }
}
EXPORT int pthread_cond_signal(pthread_cond_t *c) noexcept {
    static int (*r)(pthread_cond_t *) = (decltype(r))dlsym(RTLD_NEXT, "pthread_cond_signal");
    if (mode != 1 || self < 0) return r(c);
    signal_(c, false);
    point();
    return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t *c) noexcept {
    static int (*r)(pthread_cond_t *) = (decltype(r))dlsym(RTLD_NEXT, "pthread_cond_broadcast");
    if (mode != 1 || self < 0) return r(c);
    signal_(c, true);
    point();
    return 0;
}
EXPORT int sched_yield(void) noexcept {
    static int (*r)(void) = (decltype(r))dlsym(RTLD_NEXT, "sched_yield");
    if (mode != 1 || self < 0) return r();
    ++steps;
    yieldNow();
    return 0;
}
EXPORT int usleep(useconds_t u) {
    static int (*r)(useconds_t) = (decltype(r))dlsym(RTLD_NEXT, "usleep");
    if (mode != 1 || self < 0) return r(u);
    ++steps;
    yieldNow();
    return 0;
}
EXPORT int nanosleep(const struct timespec *a, struct timespec *b) {
    static int (*r)(const struct timespec *, struct timespec *) = (decltype(r))dlsym(RTLD_NEXT, "nanosleep");
    if (mode != 1 || self < 0) return r(a, b);
    ++steps;
    yieldNow();
    return 0;
}
EXPORT int clock_nanosleep(clockid_t k, int f, const struct timespec *a, struct timespec *b) {
    static int (*r)(clockid_t, int, const struct timespec *, struct timespec *) =
        (decltype(r))dlsym(RTLD_NEXT, "clock_nanosleep");
    if (mode != 1 || self < 0) return r(k, f, a, b);
    ++steps;
    yieldNow();
    return 0;
}

// ---- a virtual disk for POSIX AIO --------------------------------------------
#ifndef CSCHED_NO_AIO
extern "C" void csched_io_failed(int fd) __attribute__((weak));
namespace {
// Injected faults: the next `failNext` writes fail with failErr (at submission if failSubmit, else at completion).
long failNext = 0; int failErr = 0; bool failSubmit = false;
struct Op { const struct aiocb *cb; char *copy; size_t n; int fd; bool done; ssize_t ret; int err; uint64_t due; };
const int MAXO = 64;
Op ops[MAXO];
pthread_mutex_t opLock = PTHREAD_MUTEX_INITIALIZER;  // native mode only
NOSAN uint64_t nowUs() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000ull + t.tv_nsec / 1000; }
NOSAN void complete(Op &o) {
    const char *b = o.copy ? o.copy : (const char *)(uintptr_t)o.cb->aio_buf;
    size_t off = 0;
    o.ret = o.n; o.err = 0;
    if (failNext > 0 && !failSubmit) {
        --failNext;
        o.ret = -1; o.err = failErr;
        if (csched_io_failed) csched_io_failed(o.fd);
        off = o.n;
    }
    while (off < o.n) {
        ssize_t w = write(o.fd, b + off, o.n - off);
        if (w < 0 && errno == EINTR) continue;
        if (w <= 0) { o.ret = -1; o.err = errno ? errno : EIO; break; }
        off += w;
    }
    free(o.copy);
    o.copy = nullptr;
    o.done = true;
}
NOSAN Op *op(const struct aiocb *cb) {
    for (auto &o : ops) if (o.cb == cb) return &o;
    return nullptr;
}
}  // namespace
EXPORT int aio_write(struct aiocb *cb) noexcept {
    init();
    if (mode == 1) point();
    Op *o = op(cb);  // resubmitting the same control block
    if (o && !o->done) complete(*o);
    if (!o) o = op(nullptr);
    if (!o) { errno = EAGAIN; return -1; }
    o->n = cb->aio_nbytes; o->fd = cb->aio_fildes; o->done = false; o->copy = nullptr; o->ret = 0; o->err = 0;
    o->cb = cb;
    static const long direct = getenv("CSCHED_DIRECT") ? atol(getenv("CSCHED_DIRECT")) : 0;
    if (direct) {   // like a file opened with O_DIRECT: everything has to be aligned
        off_t at = lseek(o->fd, 0, SEEK_END);
        if ((uintptr_t)cb->aio_buf % direct || o->n % direct || at % direct) { o->done = true; o->ret = -1; o->err = EINVAL; return 0; }
    }
    if (failNext > 0 && failSubmit) {
        --failNext;
        o->done = true; o->ret = -1; o->err = failErr;
        if (csched_io_failed) csched_io_failed(o->fd);
        errno = failErr;
        return -1;
    }
    if (mode == 1 ? aioAtSubmit : (rnd() & 1)) {
        o->copy = (char *)malloc(o->n ? o->n : 1);
        memcpy(o->copy, (const void *)cb->aio_buf, o->n);
    }
    static int maxDelay = getenv("CSCHED_AIO_US") ? atoi(getenv("CSCHED_AIO_US")) : 0;
    if (!rngs) rngs = nowUs() | 1;
    o->due = mode == 1 ? 0 : nowUs() + (maxDelay ? rnd() % maxDelay : 0);
    return 0;
}
static NOSAN void poll_(Op *o) {
    if (!o || o->done) return;
    if (mode == 1 ? chance(pAio) : nowUs() >= o->due) complete(*o);
}
EXPORT int aio_error(const struct aiocb *cb) noexcept {
    if (mode == 1) point();
    Op *o = op(cb);
    if (!o) return 0;
    poll_(o);
    return o->done ? o->err : EINPROGRESS;
}
EXPORT ssize_t aio_return(struct aiocb *cb) noexcept {
    Op *o = op(cb);
    if (!o) return 0;
    if (!o->done) { errno = EINPROGRESS; return -1; }
    ssize_t r = o->ret;
    if (o->err) errno = o->err;
    return r;   // like glibc, the control block keeps its status until it is submitted again

}
EXPORT int aio_suspend(const struct aiocb *const l[], int n, const struct timespec *ts) {
    for (;;) {
        for (int i = 0; i < n; ++i) {
            if (!l[i]) continue;
            Op *o = op(l[i]);
            if (!o || o->done) return 0;
            poll_(o);
            if (o->done) return 0;
        }
        if (mode == 1) { ++steps; yieldNow(); }
        else sched_yield();
        if (ts && mode == 1 && (rnd() % 8) == 0) { errno = EAGAIN; return -1; }
    }
}
extern "C" NOSAN void csched_io_fail(long n, int err, int atSubmit) { failErr = err; failSubmit = atSubmit; failNext = n; }
EXPORT int aio_fsync(int, struct aiocb *) noexcept { return 0; }
#endif

// Files opened with O_DIRECT: the scratch file system need not support it; the virtual disk checks the alignment instead.
#ifndef CSCHED_NO_AIO
EXPORT int open(const char *path, int flags, ...) {
    static int (*r)(const char *, int, ...) = (decltype(r))dlsym(RTLD_NEXT, "open");
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    if (getenv("CSCHED_DIRECT")) flags &= ~O_DIRECT;
    return r(path, flags, m);
}
#endif

// The clock calibration of the library busy-waits for 20+ ms; let time fly in controlled mode.
EXPORT int gettimeofday(struct timeval *tv, void *) noexcept {
    init();
    if (mode != 1) {
        struct timespec t;
        clock_gettime(CLOCK_REALTIME, &t);
        tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000;
        return 0;
    }
    uint32_t lo, hi;
    __asm__ __volatile__("rdtsc" : "=a"(lo), "=d"(hi));
    uint64_t c = ((uint64_t)hi << 32) | lo;
    static uint64_t base = 0;
    if (!base) base = c;
    uint64_t us = (c - base);  // one cycle passes for one microsecond
    tv->tv_sec = 1700000000 + us / 1000000; tv->tv_usec = us % 1000000;
    return 0;
}

// ---- what the compiler's thread instrumentation calls ------------------------
#define A1(n) EXPORT void __tsan_##n(void *p) { access_(p); }
A1(read1) A1(read2) A1(read4) A1(read8) A1(read16)
A1(write1) A1(write2) A1(write4) A1(write8) A1(write16)
A1(unaligned_read2) A1(unaligned_read4) A1(unaligned_read8) A1(unaligned_read16)
A1(unaligned_write2) A1(unaligned_write4) A1(unaligned_write8) A1(unaligned_write16)
A1(volatile_read1) A1(volatile_read2) A1(volatile_read4) A1(volatile_read8) A1(volatile_read16)
A1(volatile_write1) A1(volatile_write2) A1(volatile_write4) A1(volatile_write8) A1(volatile_write16)
EXPORT void __tsan_read_range(void *p, unsigned long) { access_(p); }
EXPORT void __tsan_write_range(void *p, unsigned long) { access_(p); }
EXPORT void __tsan_vptr_update(void **p, void *) { access_(p); }
EXPORT void __tsan_vptr_read(void **p) { access_(p); }
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit(void) {}
EXPORT void __tsan_init(void) { init(); }
#define ATOM(bits, t) \
    EXPORT t __tsan_atomic##bits##_load(const volatile t *p, int) { access_((void *)p); return __atomic_load_n(p, 5); } \
    EXPORT void __tsan_atomic##bits##_store(volatile t *p, t v, int) { access_((void *)p); __atomic_store_n(p, v, 5); } \
    EXPORT t __tsan_atomic##bits##_exchange(volatile t *p, t v, int) { access_((void *)p); return __atomic_exchange_n(p, v, 5); } \
    EXPORT t __tsan_atomic##bits##_fetch_add(volatile t *p, t v, int) { access_((void *)p); return __atomic_fetch_add(p, v, 5); } \
    EXPORT t __tsan_atomic##bits##_fetch_sub(volatile t *p, t v, int) { access_((void *)p); return __atomic_fetch_sub(p, v, 5); } \
    EXPORT t __tsan_atomic##bits##_fetch_and(volatile t *p, t v, int) { access_((void *)p); return __atomic_fetch_and(p, v, 5); } \
    EXPORT t __tsan_atomic##bits##_fetch_or(volatile t *p, t v, int) { access_((void *)p); return __atomic_fetch_or(p, v, 5); } \
    EXPORT t __tsan_atomic##bits##_fetch_xor(volatile t *p, t v, int) { access_((void *)p); return __atomic_fetch_xor(p, v, 5); } \
    EXPORT t __tsan_atomic##bits##_fetch_nand(volatile t *p, t v, int) { access_((void *)p); return __atomic_fetch_nand(p, v, 5); } \
    EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile t *p, t *e, t v, int, int) { access_((void *)p); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
    EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile t *p, t *e, t v, int, int) { access_((void *)p); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
    EXPORT t __tsan_atomic##bits##_compare_exchange_val(volatile t *p, t e, t v, int, int) { access_((void *)p); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
ATOM(8, unsigned char)
ATOM(16, unsigned short)
ATOM(32, unsigned int)
ATOM(64, unsigned long)
EXPORT void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
EXPORT void __tsan_atomic_signal_fence(int) {}
