// P08: executions appended to one log. Every execution has its own statements, start and clock rate; all decoding modes must print
// each message with those of its own execution.
#include "enc.h"
#include <map>
using namespace enc;

struct Want { std::string rest; uint64_t ts; uint32_t thread; };
struct Exec { time_t unixTime; uint64_t rdtsc; double rate; std::vector<Want> m; };

static void prop(Tape &t) {
#ifdef PREPROCESSOR_NANOLOG
    LogMaker lm(1 << 18);           // the whole dictionary goes into the first buffer
#else
    LogMaker lm(t.chance(30) ? 3000 : 1 << 15);
#endif
    int execs = 2 + int(t.draw(4));
    std::vector<Exec> ex;
    std::string before;
    std::vector<Reg> prev;
    size_t total = 0;
    for (int k = 0; k < execs; ++k) {
        size_t at = lm.log.size();
        if (prev.size() && t.chance(25)) regs() = prev;            // the same program again
        else if (prev.size() && t.chance(35)) {                    // a new build of it
            regs() = prev;
            if (regs().size() > 1 && t.chance(40)) regs().erase(regs().begin() + long(t.draw(regs().size())));
            if (t.chance(60)) regs()[t.draw(regs().size())].line += 1 + uint32_t(t.draw(5));
            if (t.chance(30)) std::reverse(regs().begin(), regs().end());
            if (t.chance(30)) regs()[t.draw(regs().size())].sev = 1 + int(t.draw(4));
        } else genRegs(t, 1 + int(t.draw(t.chance(20) ? 40 : 6)));
        prev = regs();
        Exec x;
        x.unixTime = time_t(t.draw(4000000000ULL));
        x.rdtsc = (1ULL << 40) + t.draw(1ULL << 50);
        static const double rates[] = {1e9, 2e9, 5e8, 1e6, 4e9};
        x.rate = t.pick(rates);
        lm.begin();
        lm.flush();
        Log::Checkpoint ck;
        memcpy(&ck, lm.log.data() + at, sizeof ck);
        ck.rdtsc = x.rdtsc; ck.unixTime = x.unixTime; ck.cyclesPerSecond = x.rate;
        memcpy(&lm.log[at], &ck, sizeof ck);
        int steps = t.chance(15) ? 0 : 1 + int(t.draw(6));          // an execution may log nothing
        bool wrap = false;
        size_t known = 0;
        uint64_t clock = x.rdtsc;
        for (int s = 0; s < steps; ++s) {
            if (known < regs().size() && (known == 0 || t.chance(50))) {
                known = t.chance(50) ? regs().size() : known + 1 + t.draw(regs().size() - known);
                lm.dictionary(known);
            }
            if (t.chance(20)) lm.flush();
            int n = int(t.draw(5));
            uint32_t th = 1 + uint32_t(t.draw(3));
            std::vector<Msg> v;
            for (int i = 0; i < n; ++i) {
                clock += 1 + t.draw(uint64_t(x.rate) * 3);
                Msg m = genMsg(t, uint32_t(t.draw(known)), clock, 60);
                m.thread = th;
                v.push_back(m);
                x.m.push_back({expect(m), clock, th});
            }
            lm.all(v, th, wrap);
            wrap = t.chance(40);
        }
        lm.flush();
        total += x.m.size();
        ex.push_back(x);
        t.note("execution %d: bytes %zu-%zu, %zu statements, %zu messages, start %lld\n", k, at, lm.log.size(), regs().size(), x.m.size(), (long long)x.unixTime);
    }
    t.nontrivial = total >= 2;
    t.key = lm.log;
    for (int mode = 0; mode < 3; ++mode) {
        static const char *names[] = {"unordered decompression", "ordered decompression", "iteration"};
        std::vector<Line> l;
        if (mode < 2) {
            Decoded d = decode(t, lm.log, mode == 1);
            if (!d.opened) t.fail("the log cannot be opened");
            if (d.rc != int64_t(total)) t.fail("%s reports %lld messages instead of %zu", names[mode], (long long)d.rc, total);
            l = d.l;
        } else {
            MemFile f(lm.log);
            Dec d;
            if (!d.d.open(f.path.c_str())) t.fail("the log cannot be opened");
            Capture c;
            Log::LogMessage m;
            while (d.d.getNextLogStatement(m, c.f)) {}
            l = lines(t, c.str());
        }
        size_t p = 0;
        for (int k = 0; k < execs; ++k) {
            Exec &x = ex[size_t(k)];
            if (k) {
                if (p >= l.size() || !l[p].marker) t.fail("%s does not announce execution %d where it starts", names[mode], k);
                ++p;
            }
            for (size_t i = 0; i < x.m.size(); ++i, ++p) {      // times rise within an execution, so both orders agree
                if (p >= l.size() || l[p].marker) t.fail("%s prints %zu of the %zu messages of execution %d", names[mode], i, x.m.size(), k);
                if (l[p].rest != x.m[i].rest) t.fail("%s prints as message %zu of execution %d\n  %.300s\ninstead of\n  %.300s", names[mode], i, k, l[p].rest.c_str(), x.m[i].rest.c_str());
                uint64_t cyc = x.m[i].ts - x.rdtsc;
                double secs = double(cyc) / x.rate;
                time_t lo = x.unixTime + time_t(secs - 1e-3), hi = x.unixTime + time_t(secs + 1e-3);
                if (secs < 1e-3) lo = x.unixTime - 1;
                char a[64], b[64];
                strftime(a, sizeof a, "%Y-%m-%d %H:%M:%S", localtime(&lo));
                strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", localtime(&hi));
                std::string got = l[p].time.substr(0, 19);
                if (got != a && got != b) t.fail("%s prints message %zu of execution %d with time %s instead of %s", names[mode], i, k, l[p].time.c_str(), b);
            }
        }
        if (p != l.size()) t.fail("%s prints more than was logged", names[mode]);
    }
    ++t.extra[0];
    t.extra[1] += size_t(execs);
    t.extra[2] += total;
}

int main(int argc, char **argv) { return pbt::run(argc, argv, "p08", prop); }
