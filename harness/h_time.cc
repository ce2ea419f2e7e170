// P10: printed time stamps. Logs are encoded with chosen cycle counts; the recorded start (cycle count, Unix time, clock rate) of
// each execution is then replaced by a generated one, and the printed times are compared with exact arithmetic.
#include "enc.h"
#include <math.h>
using namespace enc;

struct Exec {
    uint64_t rdtsc; time_t unixTime; double rate;
    std::vector<Msg> m;
};

static const char *zones[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "NPT-5:45", "<+14>-14", "<-03>3", "CET-1CEST,M3.5.0,M10.5.0/3", "<-1130>11:30"};

static uint64_t genStamp(Tape &t, const Exec &x) {
    // whole seconds after (or before) the start, plus a few cycles; or any moment
    double span = 4e9;
    int64_t off;
    int64_t lim = x.rate * span < 9e18 ? int64_t(x.rate * span) : int64_t(9e18);
    switch (t.draw(6)) {
        case 0: off = int64_t(t.draw(1000)) - 500; break;
        case 1: case 2: {       // around a second boundary
            int64_t k = t.chance(50) ? t.range(-3, 3) : t.range(-100000, 100000);
            double c = rint(double(k) * x.rate);
            if (fabs(c) > double(lim)) c = 0;
            off = int64_t(c) + t.range(-3, 3);
            break;
        }
        case 3: {               // around a nanosecond boundary
            double c = x.rate * (double(t.range(-4, 4)) + double(t.draw(1000000000)) * 1e-9);
            if (fabs(c) > double(lim)) c = 0;
            off = int64_t(c) + t.range(-1, 1);
            break;
        }
        case 4: off = int64_t(t.bits()); break;
        default: off = t.range(-1000000000000LL, 1000000000000LL);
    }
    if (off > lim || off < -lim) off %= (lim + 1);
    return x.rdtsc + uint64_t(off);
}

static void prop(Tape &t) {
    setenv("TZ", t.pick(zones), 1);
    tzset();
    bool ordered = t.chance(30);        // one thread with increasing times: the same order in both modes
    genRegs(t, 1 + int(t.draw(3)));
    LogMaker lm;
    std::vector<Exec> ex(1 + t.draw(3));
    static const double rates[] = {1e9, 2.4e9, 1e6, 999999999.0, 1000000001.0, 3e9, 2399999999.7, 1e3, 1e12, 333333333.333, 1};
    size_t total = 0;
    for (auto &x : ex) {
        size_t at = lm.log.size();
        x.rate = t.chance(70) ? t.pick(rates) : double(1 + t.draw(5000000000ULL)) + double(t.draw(1000)) / 1000.0;
        x.rdtsc = t.chance(40) ? uint64_t(t.draw(1ULL << 62)) + (1ULL << 40) : t.draw(2) ? (1ULL << 63) + t.draw(1ULL << 61) : t.bits();
        if (ordered) x.rdtsc = (1ULL << 63) + t.draw(1ULL << 50);        // no wrap-around
        x.unixTime = t.chance(70) ? time_t(t.draw(4102444800ULL)) : t.chance(50) ? time_t(1700000000 + t.draw(40000000)) : t.range(-4000000000LL, 100000000000LL);
        // what the encoder itself records
        uint64_t c0 = PerfUtils::Cycles::rdtsc();
        time_t t0 = time(nullptr);
        lm.begin();
        uint64_t c1 = PerfUtils::Cycles::rdtsc();
        time_t t1 = time(nullptr);
        lm.dictionary(regs().size());
        lm.flush();
        Log::Checkpoint ck;
        memcpy(&ck, lm.log.data() + at, sizeof ck);
        if (ck.rdtsc < c0 || ck.rdtsc > c1) t.fail("the recorded start cycle count %llu is not the current one (%llu..%llu)", (unsigned long long)ck.rdtsc, (unsigned long long)c0, (unsigned long long)c1);
        if (ck.unixTime < t0 || ck.unixTime > t1) t.fail("the recorded start time %lld is not the current one (%lld..%lld)", (long long)ck.unixTime, (long long)t0, (long long)t1);
        if (ck.cyclesPerSecond != PerfUtils::Cycles::getCyclesPerSec()) t.fail("the recorded clock rate %.17g is not the measured one %.17g", ck.cyclesPerSecond, PerfUtils::Cycles::getCyclesPerSec());
        ck.rdtsc = x.rdtsc; ck.unixTime = x.unixTime; ck.cyclesPerSecond = x.rate;
        memcpy(&lm.log[at], &ck, sizeof ck);
        t.note("execution: start cycles %llu, unix time %lld, rate %.17g\n", (unsigned long long)x.rdtsc, (long long)x.unixTime, x.rate);
        int n = 1 + int(t.draw(12));
        bool sorted = t.chance(40);
        std::vector<uint64_t> st;
        for (int i = 0; i < n; ++i) st.push_back(genStamp(t, x));
        if (sorted) std::sort(st.begin(), st.end(), [&](uint64_t a, uint64_t b) { return int64_t(a - x.rdtsc) < int64_t(b - x.rdtsc); });
        if (ordered) {
            std::sort(st.begin(), st.end());
            for (size_t i = 1; i < st.size(); ++i) if (st[i] <= st[i - 1]) st[i] = st[i - 1] + 1;
        }
        bool split = t.chance(30);
        for (int i = 0; i < n; ++i) {
            Msg m = genMsg(t, uint32_t(t.draw(regs().size())), st[size_t(i)], 20);
            m.thread = 1;
            x.m.push_back(m);
            t.note("  message at %+lld cycles\n", (long long)(m.ts - x.rdtsc));
            if (split) lm.all({m}, 1, false);
        }
        if (!split) lm.all(x.m, 1, false);
        lm.flush();
        total += x.m.size();
        t.key += std::to_string(x.rdtsc) + "," + std::to_string(x.rate);
    }
    t.note("TZ %s\n", getenv("TZ"));
    t.nontrivial = total >= 2;
    Decoded d = decode(t, lm.log, ordered);
    if (d.rc != int64_t(total)) t.fail("%lld messages decompressed instead of %zu", (long long)d.rc, total);
    size_t p = 0;
    for (auto &x : ex) {
        if (p) { if (!d.l[p].marker) t.fail("no execution marker"); ++p; }
        std::vector<std::pair<int64_t, __int128>> seen;
        for (auto &m : x.m) {
            if (d.l[p].marker || d.l[p].rest != expect(m)) t.fail("the message text is wrong: %.200s", d.l[p].rest.c_str());
            const std::string &s = d.l[p++].time;
            int64_t cyc = int64_t(m.ts - x.rdtsc);
            long double secs = (long double)cyc / (long double)x.rate;
            long double tol = 0.51L + fabsl(secs) * 1e9L * 4e-16L;
            // exact time in nanoseconds, relative to whole seconds of the start
            long double ns = secs * 1e9L;
            __int128 lo = (__int128)x.unixTime * 1000000000 + (__int128)floorl(ns - tol), hi = (__int128)x.unixTime * 1000000000 + (__int128)ceill(ns + tol);
            size_t dot = s.rfind('.');
            bool ok = dot != std::string::npos && s.size() - dot == 10;
            int64_t frac = 0;
            if (ok) for (size_t i = dot + 1; i < s.size(); ++i) { if (!isdigit(s[i])) ok = false; else frac = frac * 10 + (s[i] - '0'); }
            if (!ok) t.fail("printed time '%s' does not have nine fractional digits (%+lld cycles at %.17g Hz)", s.c_str(), (long long)cyc, x.rate);
            auto fl = [](__int128 v) { __int128 q = v / 1000000000; if (v % 1000000000 < 0) --q; return int64_t(q); };
            bool found = false;
            __int128 inst = 0;
            char b[64] = "";
            for (int64_t sec = fl(lo); sec <= fl(hi) && !found; ++sec) {
                time_t tt = sec;
                struct tm tm;
                localtime_r(&tt, &tm);
                snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
                inst = (__int128)sec * 1000000000 + frac;
                if (s.substr(0, dot) == b && inst >= lo && inst <= hi) found = true;
            }
            if (!found) t.fail("printed time '%s' is not %s.%09lld +- %.1Lf ns (%+lld cycles at %.17g Hz after %lld)", s.c_str(), b, (long long)(((hi + lo) / 2) % 1000000000), tol, (long long)cyc, x.rate, (long long)x.unixTime);
            seen.push_back({cyc, inst});
            ++t.extra[0];
            if (frac < 3 || frac > 999999996) ++t.extra[1];
            if (cyc < 0) ++t.extra[2];
        }
        std::sort(seen.begin(), seen.end());
        for (size_t i = 1; i < seen.size(); ++i)
            if (seen[i].second < seen[i - 1].second) t.fail("cycle count %+lld prints as an earlier time than %+lld (%.17g Hz)", (long long)seen[i].first, (long long)seen[i - 1].first, x.rate);
    }
}

int main(int argc, char **argv) { return pbt::run(argc, argv, "p10", prop); }
