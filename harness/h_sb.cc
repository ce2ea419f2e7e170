// P13: the staging queue under generated schedules. Producer and consumer are two coroutines of one thread; the queue's
// code is compiled with -fsanitize=thread and linked to the hooks below, so that before every access to the queue's
// memory the tape decides whether to switch to the other side. Every schedule is thus part of the (shrinkable) case.
#include "pbt.h"
#include "h_sb.h"
#include <ucontext.h>
#include <pthread.h>
#include <memory>
#include <deque>

// The runtime's background thread is not wanted here.
extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*)(void *), void *) { *t = pthread_self(); return 0; }

namespace {
struct Stop {};
struct World;
World *W = nullptr;

struct World {
    pbt::Tape &t;
    ucontext_t main_, ctx[2];
    std::unique_ptr<char[]> stack[2];
    bool done[2] = {false, false};
    int cur = 0;
    uint64_t odds = 4, hooks = 0, switches = 0, sinceSwitch = 0;
    bool spinning = false, armed = false;
    std::string problem;
    void *sb = nullptr;
    char *lo = nullptr, *hi = nullptr;
    // the model
    uint64_t committedBegun = 0, committed = 0, consumedBegun = 0, consumed = 0;    // byte counts of the stream
    struct Rec { uint64_t start, len; char *at; };
    std::deque<Rec> live;           // committed (or being committed) and not yet released
    std::vector<uint64_t> bounds;   // stream positions at which records end
    bool exitBegun = false, exited = false;
    uint64_t wraps = 0, blocked = 0;
    char *lastAt = nullptr;
    uint64_t fill = 0;

    World(pbt::Tape &t) : t(t), main_(), ctx(), stack() {}

    void yield() {
        int o = 1 - cur;
        if (done[o]) return;
        int me = cur;
        cur = o;
        ++switches;
        sinceSwitch = 0;
        swapcontext(&ctx[me], &ctx[o]);
        if (!problem.empty()) throw Stop();
    }
    void point() {
        if (!armed) return;
        ++hooks;
        if (hooks > 400000) bad("no progress: %s", spinning ? "the producer still waits for space" : "the consumer still waits for data");
        ++sinceSwitch;
        if (sinceSwitch > 200) { yield(); return; }
        if (t.draw(odds) == odds - 1) yield();
    }
    [[noreturn]] void bad(const char *f, ...) __attribute__((format(printf, 2, 3))) {
        char b[4096];
        va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
        if (problem.empty()) problem = b;
        throw Stop();
    }
    static unsigned char byteAt(uint64_t i) { return (unsigned char)((i * 2654435761u) >> 13 ^ i); }
};

void access_(void *p) {
    if (!W || !W->armed) return;
    char *c = static_cast<char *>(p);
    if (c >= static_cast<char *>(W->sb) && c < static_cast<char *>(W->sb) + sbBytes()) W->point();
}

void producer(World &w) {
    pbt::Tape &t = w.t;
    size_t S = sbSize();
    unsigned ops = unsigned(t.range(1, 24));
    unsigned style = unsigned(t.draw(4));
    for (unsigned k = 0; k < ops; ++k) {
        size_t n;
        size_t maxBlock = (S - 1) / 2;
        switch (style ? style : 1 + t.draw(3)) {
            case 1: n = size_t(t.range(1, int64_t(maxBlock < 8 ? maxBlock : 8))); break;
            case 2: n = size_t(t.range(int64_t(maxBlock / 2) + 1, int64_t(maxBlock))); break;
            default: n = size_t(t.range(1, int64_t(maxBlock))); break;
        }
        bool nonblocking = t.chance(20);
        char *p;
        if (nonblocking) {
            if (t.chance(40)) n = size_t(t.range(1, int64_t(S + 3)));
            t.note("P: try %zu", n);
            p = sbTry(w.sb, n);
            if (!p) { t.note(" -> none\n"); continue; }
        } else {
            t.note("P: reserve %zu", n);
            w.spinning = true;
            uint64_t sw = w.switches;
            p = sbReserve(w.sb, n);
            if (w.switches != sw) ++w.blocked;
            w.spinning = false;
            if (!p) w.bad("reserving %zu bytes returned no space", n);
        }
        t.note(" -> at %ld\n", long(p - w.lo));
        if (p < w.lo || p + n > w.hi) w.bad("a reservation of %zu bytes lies at offset %ld of a queue of %zu bytes", n, long(p - w.lo), S);
        for (auto &r : w.live)
            if (p < r.at + r.len && r.at < p + n)
                w.bad("a reservation of %zu bytes at offset %ld overlaps %lu bytes at offset %ld that the consumer has not released", n, long(p - w.lo), (unsigned long)r.len, long(r.at - w.lo));
        if (w.lastAt && p < w.lastAt) ++w.wraps;
        w.lastAt = p;
        size_t use = n;
        if (t.chance(10)) use = size_t(t.range(1, int64_t(n)));
        // scribble over all of it: reserved space is the producer's
        for (size_t i = 0; i < n; ++i) {
            p[i] = char(i < use ? World::byteAt(w.committedBegun + i) : 0xEE);
            if ((i & 3) == 3) w.point();
        }
        w.live.push_back({w.committedBegun, use, p});
        w.committedBegun += use;
        w.bounds.push_back(w.committedBegun);
        t.note("P: commit %zu\n", use);
        sbFinish(w.sb, use);
        w.committed += use;
    }
    if (t.chance(70)) {
        w.exitBegun = true;
        t.note("P: owner exits\n");
        sbOwnerExit(w.sb);
        w.exited = true;
    }
}

void consumer(World &w) {
    pbt::Tape &t = w.t;
    unsigned lazy = unsigned(t.draw(3));
    unsigned keep = unsigned(t.draw(3));
    uint64_t rounds = 0;
    for (;;) {
        uint64_t before = w.committed;      // completed commits must be visible to this peek
        bool exitedBefore = w.exited, doneBefore = w.done[0];
        uint64_t n = ~0ull;
        char *p = sbPeek(w.sb, &n);
        t.note("C: peek -> %ld bytes at %ld\n", long(n), long(p - w.lo));
        if (n > sbSize()) w.bad("peek offers %ld bytes of a queue of %zu bytes", long(n), sbSize());
        if (w.consumed + n > w.committedBegun) w.bad("peek offers %lu bytes but only %lu are committed", (unsigned long)n, (unsigned long)(w.committedBegun - w.consumed));
        if (n == 0 && w.consumed < before) w.bad("peek offers nothing although %lu committed bytes are waiting", (unsigned long)(before - w.consumed));
        if (n) {
            if (p < w.lo || p + n > w.hi) w.bad("peek offers %lu bytes at offset %ld", (unsigned long)n, long(p - w.lo));
            bool at = false;
            for (uint64_t b : w.bounds) if (b == w.consumed + n) at = true;
            if (!at) w.bad("the %lu bytes offered end inside a record", (unsigned long)n);
        }
        // a released record never reappears; now use some or all of what was offered, in pieces
        uint64_t want = n, off = 0;
        if (n && lazy && t.chance(lazy * 30)) want = uint64_t(t.range(0, int64_t(n)));
        while (off < want) {
            uint64_t piece = keep ? uint64_t(t.range(1, int64_t(want - off))) : want - off;
            for (uint64_t i = 0; i < piece; ++i) {
                unsigned char g = (unsigned char)p[off + i], e = World::byteAt(w.consumed + i);
                if (g != e) w.bad("byte %lu of the stream was committed as 0x%02x but read as 0x%02x at offset %ld", (unsigned long)(w.consumed + i), e, g, long(p + off + i - w.lo));
                if ((i & 3) == 3) w.point();
            }
            // released in the model from here on: the reads above are finished
            w.consumedBegun = w.consumed + piece;
            while (!w.live.empty() && w.live.front().start + w.live.front().len <= w.consumedBegun) w.live.pop_front();
            if (!w.live.empty() && w.live.front().start < w.consumedBegun) {
                uint64_t d = w.consumedBegun - w.live.front().start;
                w.live.front().start += d;
                w.live.front().len -= d;
                w.live.front().at += d;
            }
            t.note("C: release %lu\n", (unsigned long)piece);
            sbConsume(w.sb, piece);
            w.consumed = w.consumedBegun;
            off += piece;
        }
        if (t.chance(30) || w.done[0]) {
            bool ex = w.exited;
            uint64_t c0 = w.committed;
            bool can = sbCanDelete(w.sb);
            if (can && !w.exitBegun) w.bad("the queue reports itself deletable while its owner lives");
            if (can && w.consumed != w.committedBegun) w.bad("the queue reports itself deletable with %lu bytes unread", (unsigned long)(w.committedBegun - w.consumed));
            if (!can && ex && exitedBefore && n == 0 && w.consumed == c0) w.bad("the queue is empty and its owner gone, but it is not deletable");
        }
        if (n == 0) {
            if (doneBefore && w.consumed == w.committed) {
                if (sbCanDelete(w.sb) != w.exited) w.bad("at the end the queue is %sdeletable", w.exited ? "not " : "");
                break;
            }
            if (++rounds > 100000) w.bad("the consumer does not get the last %lu committed bytes", (unsigned long)(w.committed - w.consumed));
            w.yield();
        }
    }
}

bool detached;

void entry(int k) {
    World &w = *W;
    try {
        if (w.problem.empty()) { if (k == 0) producer(w); else consumer(w); }
    } catch (Stop &) {
    }
    w.done[k] = true;
    if (!w.problem.empty()) { setcontext(&w.main_); }
    if (!w.done[1 - k]) { w.cur = 1 - k; ++w.switches; w.sinceSwitch = 0; setcontext(&w.ctx[1 - k]); }
    setcontext(&w.main_);
}

void prop(pbt::Tape &t) {
    static std::unique_ptr<char[]> mem(new char[sbBytes() + 64]);
    char *a = mem.get();
    while (reinterpret_cast<uintptr_t>(a) & 63) ++a;
    memset(a, 0x77, sbBytes());
    World w(t);
    W = &w;
    uint32_t id = uint32_t(t.draw(1000));
    w.sb = sbNew(a, id);
    w.lo = sbStorage(w.sb);
    w.hi = w.lo + sbSize();
    static const uint64_t od[] = {3, 2, 5, 12, 40, 300};
    w.odds = t.pick(od);
    t.note("queue of %zu bytes, one switch in %lu\n", sbSize(), (unsigned long)w.odds);
    for (int k = 0; k < 2; ++k) {
        w.stack[k].reset(new char[1 << 16]);
        getcontext(&w.ctx[k]);
        w.ctx[k].uc_stack.ss_sp = w.stack[k].get();
        w.ctx[k].uc_stack.ss_size = 1 << 16;
        w.ctx[k].uc_link = nullptr;
        makecontext(&w.ctx[k], reinterpret_cast<void (*)()>(entry), 1, k);
    }
    detached = true;
    w.cur = int(t.draw(2));
    w.armed = true;
    volatile bool back = false;
    getcontext(&w.main_);
    if (!back) {
        back = true;
        setcontext(&w.ctx[w.cur]);
    }
    w.armed = false;
    if (!w.problem.empty()) t.fail("%s", w.problem.c_str());
    if (sbId(w.sb) != id) t.fail("the queue's id is %u instead of %u", sbId(w.sb), id);
    if (!detached) t.fail("an exiting thread keeps its staging buffer");
    W = nullptr;
    t.nontrivial = w.wraps > 0 && w.switches > 2;
    t.extra[0] += w.wraps;
    t.extra[1] += w.switches;
    t.extra[2] += w.blocked;
    t.extra[3] += w.committed;
    t.key.assign(reinterpret_cast<const char *>(t.sh->tape), size_t(t.sh->len) * 8);
}
}

void sbOwnerDetached(bool d) { detached = d; }

int main(int argc, char **argv) {
    int rc = pbt::run(argc, argv, "P13", prop, 30);
    fflush(stdout);
    _exit(rc);
}

#define EXPORT extern "C"
#define A1(n) EXPORT void __tsan_##n(void *p) { access_(p); }
A1(read1) A1(read2) A1(read4) A1(read8) A1(read16)
A1(write1) A1(write2) A1(write4) A1(write8) A1(write16)
A1(unaligned_read2) A1(unaligned_read4) A1(unaligned_read8) A1(unaligned_read16)
A1(unaligned_write2) A1(unaligned_write4) A1(unaligned_write8) A1(unaligned_write16)
A1(volatile_read1) A1(volatile_read2) A1(volatile_read4) A1(volatile_read8) A1(volatile_read16)
A1(volatile_write1) A1(volatile_write2) A1(volatile_write4) A1(volatile_write8) A1(volatile_write16)
EXPORT void __tsan_read_range(void *p, unsigned long) { access_(p); }
EXPORT void __tsan_write_range(void *p, unsigned long) { access_(p); }
EXPORT void __tsan_vptr_update(void **p, void *) { access_(p); }
EXPORT void __tsan_vptr_read(void **p) { access_(p); }
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit(void) {}
EXPORT void __tsan_init(void) {  }
#define ATOM(bits, t) \
    EXPORT t __tsan_atomic##bits##_load(const volatile t *p, int) { access_((void *)p); return __atomic_load_n(p, 5); } \
    EXPORT void __tsan_atomic##bits##_store(volatile t *p, t v, int) { access_((void *)p); __atomic_store_n(p, v, 5); } \
    EXPORT t __tsan_atomic##bits##_exchange(volatile t *p, t v, int) { access_((void *)p); return __atomic_exchange_n(p, v, 5); } \
    EXPORT t __tsan_atomic##bits##_fetch_add(volatile t *p, t v, int) { access_((void *)p); return __atomic_fetch_add(p, v, 5); } \
    EXPORT t __tsan_atomic##bits##_fetch_sub(volatile t *p, t v, int) { access_((void *)p); return __atomic_fetch_sub(p, v, 5); } \
    EXPORT t __tsan_atomic##bits##_fetch_and(volatile t *p, t v, int) { access_((void *)p); return __atomic_fetch_and(p, v, 5); } \
    EXPORT t __tsan_atomic##bits##_fetch_or(volatile t *p, t v, int) { access_((void *)p); return __atomic_fetch_or(p, v, 5); } \
    EXPORT t __tsan_atomic##bits##_fetch_xor(volatile t *p, t v, int) { access_((void *)p); return __atomic_fetch_xor(p, v, 5); } \
    EXPORT t __tsan_atomic##bits##_fetch_nand(volatile t *p, t v, int) { access_((void *)p); return __atomic_fetch_nand(p, v, 5); } \
    EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile t *p, t *e, t v, int, int) { access_((void *)p); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
    EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile t *p, t *e, t v, int, int) { access_((void *)p); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
    EXPORT t __tsan_atomic##bits##_compare_exchange_val(volatile t *p, t e, t v, int, int) { access_((void *)p); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
ATOM(8, unsigned char)
ATOM(16, unsigned short)
ATOM(32, unsigned int)
ATOM(64, unsigned long)
EXPORT void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
EXPORT void __tsan_atomic_signal_fence(int) {}
