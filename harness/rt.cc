// Interprets a scenario file against the real NanoLog runtime and records what happened.
//
//   rt <scenario> <record> <dir>
//
// Scenario: one line per logical thread "T<i> op op ...", thread 0 is main. Ops:
//   l<site>,<len>,<v>   log through a generated site with a string of len bytes
//   s                   sync()                f<k>   setLogFile(dir/f<k>)  (k==u<n>: unusable path n)
//   v<n>                setLogLevel(n)        g      getLogLevel()
//   p                   preallocate()         c<i>   create thread i     j<i>  join thread i
//   w<i>,<n>            wait until thread i has executed n ops
//   d<n>                pass n scheduling points
//   a                   getStats()            h      histograms
//   x                   exit(0) from this thread (main only)
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include <atomic>
#include <fstream>
#include <ios>
#include <sstream>
#include <string>
#include <vector>
#include "NanoLogCpp17.h"
#include "csched.h"
#include "rt.h"
using namespace NanoLog::LogLevels;

struct Op { char k; long a, b, c; };
// Never destroyed: threads may outlive main().
static auto &prog = *new std::vector<std::vector<Op>>;
static auto &handles = *new std::vector<pthread_t>;
static std::vector<std::atomic<long>> *done;
static int recFd = -1;
static auto &dir = *new std::string;
static auto &current = *new std::string;
static const int MAXSTR = 1 << 20;

static void put(const char *p, size_t n) {
    while (n) {
        ssize_t w = ::write(recFd, p, n);
        if (w < 0) { if (errno == EINTR) continue; _exit(96); }
        p += w; n -= w;
    }
}
static void putf(const char *f, ...) {
    char b[512];
    va_list ap;
    va_start(ap, f);
    int n = vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    put(b, n);
}
// The record of a message is written before the logging call; the length-prefixed text is what printf makes of it.
void rec_begin(int t, int s, int site, int lvl, const char *file, int line, const char *fmt, ...) {
    static thread_local std::vector<char> *buf;
    if (!buf) buf = new std::vector<char>(4096);
    va_list ap, ap2;
    va_start(ap, fmt);
    va_copy(ap2, ap);
    int n = vsnprintf(nullptr, 0, fmt, ap2);
    va_end(ap2);
    if ((int)buf->size() < n + 1024) buf->resize(n + 1024);
    int h = snprintf(buf->data(), 1000, "B %d %d %d %d %d %s %d %d ", t, s, site, lvl, (int)NanoLog::getLogLevel(), file, line, n);
    vsnprintf(buf->data() + h, n + 1, fmt, ap);
    va_end(ap);
    (*buf)[h + n] = '\n';
    put(buf->data(), h + n + 1);
}
void rec_end(int t, int s) { putf("E %d %d\n", t, s); }

static long fsize() {
    struct stat st;
    return stat(current.c_str(), &st) == 0 ? (long)st.st_size : -1;
}

extern "C" void csched_io_fail(long n, int err, int atSubmit) __attribute__((weak));
// A write to the log file failed by order of an 'e' operation.
extern "C" void csched_io_failed(int fd) {
    char l[64], p[600];
    struct stat st;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, p, sizeof p - 1);
    p[n > 0 ? n : 0] = 0;
    putf("I %ld %s\n", fstat(fd, &st) == 0 ? (long)st.st_size : -1L, p);
}

static void *body(void *arg);
static void runOps(int t) {
    std::vector<char> str;
    int seq = 0, syncs = 0;
    const auto &ops = prog[t];
    for (size_t i = 0; i < ops.size(); ++i) {
        const Op &o = ops[i];
        switch (o.k) {
            case 'm':
            case 'l': {
                int n = (int)o.b;
                if (n > MAXSTR) n = MAXSTR;
                str.assign(n + 1, 0);
                unsigned x = (unsigned)(o.c * 2654435761u + t * 40503u + seq);
                for (int q = 0; q < n; ++q) { x = x * 1103515245u + 12345u; str[q] = 'a' + (x >> 16) % 26; }
                if (o.k == 'm') {       // the whole call without a context switch
                    uint64_t f = csched_forced();
                    csched_disable();
                    siteTable[o.a % siteCount](t, seq, o.c, str.data(), n);
                    csched_enable();
                    if (csched_forced() != f) putf("K %d\n", t);
                } else siteTable[o.a % siteCount](t, seq, o.c, str.data(), n);
                ++seq;
                break;
            }
            case 's':
                putf("S %d %d %ld\n", t, syncs, fsize());
                NanoLog::sync();
                putf("R %d %d %ld %s\n", t, syncs, fsize(), current.c_str());
                ++syncs;
                break;
            case 'f': {
                char p[64];
                if (o.b) snprintf(p, sizeof p, o.a == 0 ? "/nonexistent-dir/x/f" : o.a == 1 ? "sub" : o.a == 2 ? "" : "ro", 0);
                else snprintf(p, sizeof p, "f%ld", o.a);
                std::string path = (o.b && o.a == 0) ? dir + p : (o.b && o.a == 2) ? std::string("") : dir + "/" + p;
                putf("F %d %s\n", t, path.c_str());
                bool ok = true;
                try { NanoLog::setLogFile(path.c_str()); }
                catch (std::ios_base::failure &e) { ok = false; }
                if (ok) current = path;
                putf("f %d %d %s\n", t, (int)ok, path.c_str());
                break;
            }
            case 'v':
                putf("V %d %ld\n", t, o.a);
                NanoLog::setLogLevel((NanoLog::LogLevels::LogLevel)o.a);
                putf("v %d %ld\n", t, o.a);
                break;
            case 'g': putf("G %d %d\n", t, (int)NanoLog::getLogLevel()); break;
            case 'p': NanoLog::preallocate(); putf("P %d\n", t); break;
            case 'c': pthread_create(&handles[o.a], nullptr, body, (void *)o.a); break;
            case 'j': pthread_join(handles[o.a], nullptr); putf("J %d %ld\n", t, o.a); break;
            case 'w':
                while ((*done)[o.a].load() < o.b) sched_yield();
                break;
            case 'd': for (long q = 0; q < o.a; ++q) csched_point(); break;
            case 'a': {
                std::string st = NanoLog::getStats();
                putf("A %d %zu ", t, st.size());
                put(st.data(), st.size());
                put("\n", 1);
                break;
            }
            case 'h': {
                std::string st = NanoLogInternal::RuntimeLogger::getHistograms();
                putf("H %d %zu ", t, st.size());
                put(st.data(), st.size());
                put("\n", 1);
                break;
            }
            case 'e':       // the next o.a writes fail
                putf("D %d %ld %ld\n", t, o.a, o.b);
                if (csched_io_fail) csched_io_fail(o.a, o.b == 0 ? EIO : o.b == 1 ? ENOSPC : EAGAIN, o.b == 2);
                break;
            case 'x': putf("X %d\n", t); exit(0);
        }
        (*done)[t].store((long)i + 1);
    }
}
static void *body(void *arg) {
    int t = (int)(long)arg;
    runOps(t);
    putf("Z %d\n", t);
    return nullptr;
}

int main(int argc, char **argv) {
    if (argc < 4) return 95;
    recFd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
    dir = argv[3];
    current = dir + "/" + (getenv("RT_DEFAULT_LOG") ? getenv("RT_DEFAULT_LOG") : "compressedLog");
    std::ifstream in(argv[1]);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream ss(line);
        std::string w;
        ss >> w;
        if (w.empty() || w[0] != 'T') continue;
        size_t t = atol(w.c_str() + 1);
        if (prog.size() <= t) prog.resize(t + 1);
        while (ss >> w) {
            Op o{w[0], 0, 0, 0};
            const char *p = w.c_str() + 1;
            if (o.k == 'f' && *p == 'u') { o.b = 1; ++p; o.a = atol(p); }
            else sscanf(p, "%ld,%ld,%ld", &o.a, &o.b, &o.c);
            prog[t].push_back(o);
        }
    }
    handles.resize(prog.size());
    done = new std::vector<std::atomic<long>>(prog.size());
    putf("M %d\n", csched_active());
    runOps(0);
    putf("Q %lu %lu\n", (unsigned long)csched_steps(), (unsigned long)csched_switches());
    putf("Z 0\n");
    return 0;
}
