// Property-based testing driver: cases draw all their randomness from a recorded tape of choices, every case runs in a
// forked child, and a failing tape (failed check, crash, sanitizer report or hang) is shrunk and saved for replay.
#ifndef PBT_H
#define PBT_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <ctime>
#include <csignal>
#include <string>
#include <vector>
#include <functional>
#include <unordered_set>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>

namespace pbt {
struct Failure { std::string what; };
struct Discard {};

struct Shared {
    enum { MAXTAPE = 1 << 21 };
    volatile uint64_t caseNo, heartbeat, evals, nontrivial;
    volatile uint64_t len;
    char msg[1 << 16];
    char desc[1 << 18];
    uint64_t tape[MAXTAPE];
};

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }

struct Tape {
    Shared *sh;
    std::vector<uint64_t> in;
    bool replay;
    uint64_t pos, s;
    std::string desc;
    std::string key;        // identifies the case when it is non-trivial
    bool nontrivial;
    bool wantDesc;
    uint64_t extra[8];      // harness-defined counters, summed over the run
    Tape(Shared *sh, uint64_t seed) : sh(sh), in(), replay(false), pos(0), s(seed), desc(), key(), nontrivial(false), wantDesc(false), extra() { sh->len = 0; }
    uint64_t raw() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    // uniform in [0, n); n == 0 means all 64-bit values
    uint64_t draw(uint64_t n) {
        uint64_t v;
        if (replay) {
            v = pos < in.size() ? in[pos] : 0;
            ++pos;
            if (n) v %= n;
        } else {
            v = n ? raw() % n : raw();
        }
        if (sh->len < Shared::MAXTAPE) { sh->tape[sh->len] = v; sh->len = sh->len + 1; }
        return v;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(draw(uint64_t(hi - lo) + 1)); }
    bool chance(unsigned pct) { return draw(100) >= 100 - pct; }    // shrinks towards false
    template <typename T, size_t N> const T &pick(const T (&a)[N]) { return a[draw(N)]; }
    // integer biased to powers of two, small values and extremes
    uint64_t bits() {
        switch (draw(6)) {
            case 0: return draw(256);
            case 1: { uint64_t k = draw(64); return (1ULL << k) + draw(3) - 1; }
            case 2: { uint64_t k = draw(64); return ~((1ULL << k) + draw(3) - 1); }
            case 3: { uint64_t k = 1 + draw(64); uint64_t v = draw(0); return k == 64 ? v : v & ((1ULL << k) - 1); }
            case 4: { uint64_t k = 8 * (1 + draw(8)); uint64_t v = (k == 64 ? 0 : (1ULL << k)) + draw(5) - 2; return draw(2) ? 0 - v : v; }
            default: return draw(0);
        }
    }
    void note(const char *f, ...) __attribute__((format(printf, 2, 3))) {
        if (!wantDesc || desc.size() > 200000) return;
        char b[2048];
        va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
        desc += b;
    }
    void fail(const char *f, ...) __attribute__((format(printf, 2, 3), noreturn)) {
        char b[8192];
        va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
        throw Failure{b};
    }
};

typedef std::function<void(Tape &)> Prop;

struct Driver {
    Shared *sh;
    Prop prop;
    uint64_t seed = 1, cases = 1000;
    double timeLimit = 60, hang = 60;
    std::string out = ".", name = "case";
    std::unordered_set<uint64_t> seen;

    static uint64_t hash(const std::string &s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }

    // Runs the property once on t in this process. Exit status 0 ok, 1 failed.
    int once(Tape &t) {
        try {
            prop(t);
        } catch (Failure &f) {
            snprintf(sh->msg, sizeof sh->msg, "%s", f.what.c_str());
            snprintf(sh->desc, sizeof sh->desc, "%s", t.desc.c_str());
            return 1;
        } catch (Discard &) {
            t.nontrivial = false;
        } catch (std::exception &e) {
            snprintf(sh->msg, sizeof sh->msg, "exception: %s", e.what());
            return 1;
        }
        snprintf(sh->desc, sizeof sh->desc, "%s", t.desc.c_str());
        return 0;
    }
    // Waits for pid; true if it ended by itself, false if it had to be killed.
    bool await(pid_t pid, int *st, double limit) {
        uint64_t hb = sh->heartbeat;
        double t0 = now();
        useconds_t us = 50;
        while (true) {
            pid_t r = waitpid(pid, st, WNOHANG);
            if (r == pid) return true;
            if (sh->heartbeat != hb) { hb = sh->heartbeat; t0 = now(); }
            if (now() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, st, 0); return false; }
            usleep(us);
            if (us < 2000) us *= 2;
        }
    }
    // Replays a tape in a child; true if it fails. Leaves message and description in sh.
    bool fails(const std::vector<uint64_t> &v, bool desc, double limit) {
        sh->msg[0] = 0;
        sh->desc[0] = 0;
        fflush(stdout); fflush(stderr);
        std::string ep = out + "/stderr-" + name + std::to_string(getpid());
        pid_t p = fork();
        if (p == 0) {
            int e = open(ep.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(e, 2); dup2(e, 1);
            Tape t(sh, 0);
            t.replay = true;
            t.in = v;
            t.wantDesc = desc;
            int r = once(t);
            _exit(r ? 57 : 0);
        }
        int st = 0;
        if (!await(p, &st, limit)) { snprintf(sh->msg, sizeof sh->msg, "the case does not terminate"); return true; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 57)) {
            char b[3000] = {0};
            FILE *f = fopen(ep.c_str(), "r");
            if (f) { size_t n = fread(b, 1, sizeof b - 1, f); b[n] = 0; fclose(f); }
            snprintf(sh->msg, sizeof sh->msg, "the process %s %d; its output: %s", WIFSIGNALED(st) ? "is killed by signal" : "exits with status",
                     WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), b);
        }
        return true;
    }
    std::vector<uint64_t> shrink(std::vector<uint64_t> v, double budget) {
        double end = now() + budget;
        double lim = 10;
        bool changed = true;
        auto attempt = [&](const std::vector<uint64_t> &c) {
            if (now() > end) return false;
            if (fails(c, false, lim)) {
                std::vector<uint64_t> used(sh->tape, sh->tape + sh->len);   // normalised
                v = (used.size() <= c.size() && used.size()) ? used : c;
                return true;
            }
            return false;
        };
        while (changed && now() < end) {
            changed = false;
            for (size_t k = v.size() / 2 + 1; k >= 1 && now() < end; k /= 2) {
                for (size_t i = 0; i + k <= v.size() && now() < end;) {
                    std::vector<uint64_t> c(v);
                    c.erase(c.begin() + long(i), c.begin() + long(i + k));
                    if (attempt(c)) changed = true; else i += k;
                }
                if (k == 1) break;
            }
            for (size_t k = v.size() / 2 + 1; k >= 1 && now() < end; k /= 2) {
                for (size_t i = 0; i < v.size() && now() < end; i += k) {
                    std::vector<uint64_t> c(v);
                    bool any = false;
                    for (size_t j = i; j < i + k && j < c.size(); ++j) { if (c[j]) any = true; c[j] = 0; }
                    if (any && attempt(c)) changed = true;
                }
                if (k == 1) break;
            }
            for (size_t i = 0; i < v.size() && now() < end; ++i) {
                uint64_t lo = 0;
                while (i < v.size() && lo < v[i] && now() < end) {
                    uint64_t mid = lo + (v[i] - lo) / 2;
                    std::vector<uint64_t> c(v);
                    c[i] = mid;
                    if (attempt(c)) changed = true; else lo = mid + 1;
                }
            }
        }
        return v;
    }
    void save(const std::string &path, const std::vector<uint64_t> &v) {
        FILE *f = fopen(path.c_str(), "w");
        if (!f) return;
        fprintf(f, "PBT %s\n", name.c_str());
        for (uint64_t x : v) fprintf(f, "%llu ", (unsigned long long)x);
        fprintf(f, "\n--- problem\n%s\n--- case\n%s\n", sh->msg, sh->desc);
        fclose(f);
    }

    int run(int argc, char **argv) {
        std::string rep;
        for (int i = 1; i + 1 < argc; i += 2) {
            std::string a = argv[i];
            if (a == "--seed") seed = strtoull(argv[i + 1], 0, 10);
            else if (a == "--cases") cases = strtoull(argv[i + 1], 0, 10);
            else if (a == "--time") timeLimit = atof(argv[i + 1]);
            else if (a == "--out") out = argv[i + 1];
            else if (a == "--replay") rep = argv[i + 1];
        }
        sh = static_cast<Shared *>(mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        if (!rep.empty()) {
            FILE *f = fopen(rep.c_str(), "r");
            char line[256];
            std::vector<uint64_t> v;
            unsigned long long x;
            if (!f || !fgets(line, sizeof line, f)) return 2;
            while (fscanf(f, "%llu", &x) == 1) v.push_back(x);
            fclose(f);
            bool b = fails(v, true, hang);
            printf("%s\n%s\n%s\n", b ? "FAILS" : "passes", sh->msg, sh->desc);
            return b;
        }
        std::string hp = out + "/hashes-" + std::to_string(seed), sp = out + "/samples-" + std::to_string(seed);
        double t0 = now();
        pid_t p = fork();
        if (p == 0) {
            uint64_t ex[8] = {0};
            std::vector<uint64_t> hashes;
            FILE *sf = fopen(sp.c_str(), "w");
            int samples = 0;
            int rc = 0;
            for (uint64_t i = 0; i < cases && now() - t0 < timeLimit; ++i) {
                sh->caseNo = i;
                sh->heartbeat = sh->heartbeat + 1;
                Tape t(sh, hash(std::to_string(seed) + "/" + std::to_string(i)));
                t.wantDesc = samples < 3 && (i % 7) == 3;
                rc = once(t);
                if (rc) break;
                sh->evals = sh->evals + 1;
                for (int k = 0; k < 8; ++k) ex[k] += t.extra[k];
                if (t.nontrivial) {
                    sh->nontrivial = sh->nontrivial + 1;
                    uint64_t h = hash(t.key);
                    if (seen.insert(h).second) hashes.push_back(h);
                    if (t.wantDesc && !t.desc.empty() && t.desc.size() < 4000) { fprintf(sf, "%s\n----\n", t.desc.c_str()); ++samples; }
                }
            }
            fclose(sf);
            FILE *f = fopen(hp.c_str(), "wb");
            fwrite(hashes.data(), 8, hashes.size(), f);
            fclose(f);
            printf("EXTRA %llu %llu %llu %llu %llu %llu %llu %llu\n", (unsigned long long)ex[0], (unsigned long long)ex[1], (unsigned long long)ex[2],
                   (unsigned long long)ex[3], (unsigned long long)ex[4], (unsigned long long)ex[5], (unsigned long long)ex[6], (unsigned long long)ex[7]);
            fflush(stdout);
            _exit(rc ? 57 : 0);
        }
        int st = 0;
        bool ended = await(p, &st, hang);
        printf("STATS %llu %llu\n", (unsigned long long)sh->evals, (unsigned long long)sh->nontrivial);
        if (ended && WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
        std::vector<uint64_t> v(sh->tape, sh->tape + sh->len);
        // a case that ended inside a draw-free tail is complete; regenerate from the seed if the tape overflowed
        bool again = fails(v, true, hang);
        if (!again) { printf("UNCONFIRMED case %llu (status %d) %s\n", (unsigned long long)sh->caseNo, st, sh->msg); return 3; }
        std::vector<uint64_t> w = shrink(v, 25);
        bool ok = true;
        for (int i = 0; i < 3 && ok; ++i) ok = fails(w, true, hang);
        if (!ok) {
            w = v;
            ok = true;
            for (int i = 0; i < 3 && ok; ++i) ok = fails(w, true, hang);
        }
        if (!ok) { printf("UNCONFIRMED case %llu\n", (unsigned long long)sh->caseNo); return 3; }
        std::string path = out + "/fail-" + std::to_string(seed) + ".txt";
        save(path, w);
        printf("FAIL %s\n", path.c_str());
        return 1;
    }
};

inline int run(int argc, char **argv, const char *name, Prop p, double hang = 60) {
    Driver d;
    d.prop = p;
    d.name = name;
    d.hang = hang;
    return d.run(argc, argv);
}
}
#endif
