// P21: time traces against a model of per-thread rings.
#include <atomic>
#include <cmath>
#include <condition_variable>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include "TimeTrace.h"
#include "pbt.h"
using PerfUtils::TimeTrace;
using PerfUtils::Cycles;

static const size_t KEEP = 8191;    // events of one thread a trace covers (capacity 8192, one slot kept free)

struct Ev { uint64_t ts; const char *fmt; uint32_t a[4]; int nargs; };

// A pool of threads that execute jobs one at a time, in the order given by the caller.
struct Worker {
    std::mutex m; std::condition_variable cv;
    std::function<void()> job; bool busy = false;
    std::thread th;
    Worker() { th = std::thread([this] { while (true) { std::unique_lock<std::mutex> l(m); cv.wait(l, [this] { return busy; }); l.unlock(); job(); l.lock(); busy = false; cv.notify_all(); } }); th.detach(); }
    void start(std::function<void()> f) { std::unique_lock<std::mutex> l(m); job = f; busy = true; cv.notify_all(); }
    void wait() { std::unique_lock<std::mutex> l(m); cv.wait(l, [this] { return !busy; }); }
    void call(std::function<void()> f) { start(f); wait(); }
};
static std::vector<Worker *> pool;

static const char *fmts[] = {"event %u", "%u", "event %u: %u of %u (%u)", "[%08x] %d%%", "%u a longer description of something that happened in the system, with numbers %u and %u",
                             "%5u|%-5u|%05u", "%u%%", "%u %c", "%x %X %o", "%u: (+1.0 ns): decoy 12.0 ns"};

static void rec(const Ev &e, TimeTrace::Buffer *b) {
    if (b) {
        switch (e.nargs) {
            case 1: b->record(e.ts, e.fmt, e.a[0]); break;
            case 2: b->record(e.ts, e.fmt, e.a[0], e.a[1]); break;
            case 3: b->record(e.ts, e.fmt, e.a[0], e.a[1], e.a[2]); break;
            default: b->record(e.ts, e.fmt, e.a[0], e.a[1], e.a[2], e.a[3]);
        }
    } else {
        switch (e.nargs) {
            case 1: TimeTrace::record(e.ts, e.fmt, e.a[0]); break;
            case 2: TimeTrace::record(e.ts, e.fmt, e.a[0], e.a[1]); break;
            case 3: TimeTrace::record(e.ts, e.fmt, e.a[0], e.a[1], e.a[2]); break;
            default: TimeTrace::record(e.ts, e.fmt, e.a[0], e.a[1], e.a[2], e.a[3]);
        }
    }
}

static std::string text(const Ev &e) {
    char b[1000];
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
    snprintf(b, sizeof b, e.fmt, e.a[0], e.nargs > 1 ? e.a[1] : 0, e.nargs > 2 ? e.a[2] : 0, e.nargs > 3 ? e.a[3] : 0);
    return b;
}

typedef std::vector<std::deque<Ev>> Model;

static void compare(pbt::Tape &t, const Model &m, std::string got, const char *how) {
    uint64_t start = 0;
    size_t retained = 0;
    for (auto &d : m) if (!d.empty()) { start = std::max(start, d.front().ts); ++retained; }
    std::map<std::string, std::vector<std::pair<size_t, size_t>>> where;
    size_t want = 0;
    std::vector<size_t> next(m.size());
    for (size_t i = 0; i < m.size(); ++i) {
        size_t k = 0;
        while (k < m[i].size() && m[i][k].ts < start) ++k;
        next[i] = k;
        want += m[i].size() - k;
    }
    if (!retained) {
        if (got.find("No time trace events to print") != 0) t.fail("%s: nothing was recorded, printed: %.300s", how, got.c_str());
        return;
    }
    uint64_t last = start;
    size_t pos = 0;
    for (size_t n = 0; n < want; ++n) {
        if (pos >= got.size()) t.fail("%s: %zu events expected, %zu printed", how, want, n);
        size_t e = got.find('\n', pos);
        std::string line = got.substr(pos, e == std::string::npos ? e : e - pos);
        pos = e == std::string::npos ? got.size() : e + 1;
        double ns, d;
        int used = -1;
        if (sscanf(line.c_str(), "%lf ns (+%lf ns):%n", &ns, &d, &used) != 2 || used < 0) t.fail("%s: malformed line %zu: '%.200s'", how, n, line.c_str());
        char head[100];
        snprintf(head, sizeof head, "%8.1f ns (+%6.1f ns): ", ns, d);
        if (line.compare(0, strlen(head), head) != 0) t.fail("%s: line %zu '%.200s' is not in the documented format", how, n, line.c_str());
        std::string msg = line.substr(strlen(head));
        // Which thread's next event is it?
        int th = -1;
        for (size_t i = 0; i < m.size() && th < 0; ++i)
            if (next[i] < m[i].size() && text(m[i][next[i]]) == msg) th = int(i);
        if (th < 0) t.fail("%s: line %zu of %zu is '%.200s', which is not the next event of any thread", how, n, want, line.c_str());
        const Ev &x = m[size_t(th)][next[size_t(th)]++];
        if (x.ts < last) t.fail("%s: line %zu '%.200s' is earlier than the line before it", how, n, line.c_str());
        long double ens = (long double)(x.ts - start) * 1e9L / (long double)Cycles::perSecond();
        long double ed = (long double)(x.ts - last) * 1e9L / (long double)Cycles::perSecond();
        long double tol = 0.0501L + ens * 1e-14L;
        if (fabsl(ns - ens) > tol || fabsl(d - ed) > tol) t.fail("%s: line %zu '%.200s', expected %.3Lf ns (+%.3Lf ns)", how, n, line.c_str(), ens, ed);
        last = x.ts;
    }
    if (pos < got.size()) t.fail("%s: %zu events expected, more were printed: '%.200s'", how, want, got.c_str() + pos);
}

static std::string slurp(int fd) {
    std::string s; char b[65536]; ssize_t n;
    while ((n = read(fd, b, sizeof b)) > 0) s.append(b, size_t(n));
    return s;
}

static void prop(pbt::Tape &t) {
    while (pool.size() < 5) {
        pool.push_back(new Worker);
        pool.back()->call([] { TimeTrace::record(uint64_t(1), "warm up"); });     // the thread's buffer exists
    }
    TimeTrace::reset();
    bool direct = t.draw(4) == 3;       // one private Buffer instead of the per-thread ones
    std::unique_ptr<TimeTrace::Buffer> own(direct ? new TimeTrace::Buffer : nullptr);
    size_t nth = direct ? 1 : 1 + size_t(t.draw(5));
    Model m(nth);
    uint64_t clock = 1 + (t.draw(2) ? t.draw(1000) : t.bits() >> 14);
    uint32_t seq = uint32_t(t.draw(2) ? 0 : t.draw(0));
    size_t nops = 1 + size_t(t.draw(8));
    std::vector<size_t> total(nth);
    size_t checks = 0;
    t.note(direct ? "buffer" : "%zu threads", nth);
    auto burst = [&](size_t th, bool drop) {
        size_t n;
        switch (t.draw(6)) {
            case 0: n = 1; break;
            case 1: n = size_t(t.draw(20)); break;
            case 2: n = size_t(t.draw(3000)); break;
            case 3: n = KEEP - 2 + size_t(t.draw(5)); break;
            case 4: { size_t have = total[th] % 8192; n = (8192 - have) % 8192 + size_t(t.draw(4)) + 8190; if (n > 8192 && t.draw(2)) n -= 8192; break; }
            default: n = size_t(t.draw(3)) * 8192 + size_t(t.draw(8192)); break;
        }
        uint64_t base = t.draw(0);
        int style = int(t.draw(4));
        t.note("; %s%zu: %zu events", drop ? "while printing thread " : "thread ", th, n);
        std::vector<Ev> evs;
        for (size_t i = 0; i < n; ++i) {
            uint64_t r = (base += 0x9e3779b97f4a7c15ULL);
            r ^= r >> 29; r *= 0xbf58476d1ce4e5b9ULL; r ^= r >> 32;
            clock += style == 0 ? 1 : style == 1 ? r % 2 : style == 2 ? r % 5000 : (r % 997 == 0 ? r % 10000000000ULL : r % 50);
            Ev e = {clock, fmts[r % (sizeof fmts / sizeof *fmts)], {seq++, uint32_t(r >> 8), uint32_t(r >> 16) % 100, 'A' + uint32_t(r >> 24) % 26}, 1 + int((r >> 40) % 4)};
            if (strchr(e.fmt, 'c')) e.a[1] = 'a' + e.a[1] % 26, e.nargs = std::max(e.nargs, 2);
            evs.push_back(e);
        }
        TimeTrace::Buffer *b = own.get();
        pool[th]->call([&] { for (auto &e : evs) rec(e, b); });
        if (drop) return;
        total[th] += n;
        for (auto &e : evs) { m[th].push_back(e); if (m[th].size() > KEEP) m[th].pop_front(); }
    };
    for (size_t op = 0; op < nops; ++op) {
        switch (t.draw(8)) {
            case 0: case 1: case 2: case 3: burst(size_t(t.draw(nth)), false); break;
            case 4:
                t.note("; reset");
                if (direct) own->reset(); else TimeTrace::reset();
                for (auto &d : m) d.clear();
                std::fill(total.begin(), total.end(), 0);
                break;
            case 5:
                t.note("; getTrace");
                compare(t, m, direct ? own->getTrace() : TimeTrace::getTrace(), "getTrace");
                ++checks;
                break;
            case 6: {
                t.note("; print");
                char path[64] = "/dev/shm/nlv-tt-XXXXXX";
                int fd = mkstemp(path);
                TimeTrace::setOutputFileName(path);
                if (direct) own->print(); else TimeTrace::print();
                std::string s = slurp(fd);
                close(fd); unlink(path);
                compare(t, m, s, "print");
                ++checks;
                break;
            }
            case 7: {       // events recorded while a trace is being printed do not disturb it
                size_t big = 0;
                uint64_t start = 0;
                for (auto &d : m) if (!d.empty()) start = std::max(start, d.front().ts);
                for (auto &d : m) for (auto &e : d) big += e.ts >= start;
                if (big < 4000) break;          // the printer has to be stopped half-way by a full pipe
                t.note("; print to a slow reader");
                char path[64];
                snprintf(path, sizeof path, "/dev/shm/nlv-tt-fifo-%d", int(getpid()));
                unlink(path);
                if (mkfifo(path, 0600) != 0) break;
                TimeTrace::setOutputFileName(path);
                Worker *printer = pool[4];
                if (nth == 5) { unlink(path); break; }
                int fd = open(path, O_RDWR);        // the pipe exists before the printer opens it
                fcntl(fd, F_SETPIPE_SZ, 4096);
                printer->start([&] { if (direct) own->print(); else TimeTrace::print(); });
                // the printer is surely inside once data arrives
                char first;
                std::string s;
                if (read(fd, &first, 1) == 1) s.push_back(first);
                size_t k = 1 + size_t(t.draw(3));
                for (size_t i = 0; i < k; ++i) burst(size_t(t.draw(nth)), true);
                int rd = open(path, O_RDONLY | O_NONBLOCK);
                // drain until the printer is finished
                std::atomic<bool> done(false);
                std::thread w([&] { printer->wait(); done = true; });
                char b[65536];
                fcntl(fd, F_SETFL, O_NONBLOCK | O_RDWR);
                while (true) {
                    bool d = done;
                    ssize_t n = read(fd, b, sizeof b);
                    if (n > 0) s.append(b, size_t(n));
                    else if (d) break;
                    else usleep(100);
                }
                w.join();
                close(rd); close(fd); unlink(path);
                compare(t, m, s, "print with events recorded meanwhile");
                ++checks;
                t.extra[2]++;
                break;
            }
        }
    }
    t.note("; getTrace\n");
    compare(t, m, direct ? own->getTrace() : TimeTrace::getTrace(), "getTrace");
    t.extra[0] += checks + 1;
    for (size_t n : total) { t.key += std::to_string(n) + ","; if (n > KEEP) t.extra[1]++; if (n) t.nontrivial = true; }
    t.key += std::to_string(clock);
}

int main(int argc, char **argv) { return pbt::run(argc, argv, "P21", prop); }
