// P22: cycle/time conversions against (near-)exact arithmetic.
#include <cmath>
#include <ctime>
#include "Cycles.h"
#include "pbt.h"
using PerfUtils::Cycles;

static double genRate(pbt::Tape &t) {
    static const double fixed[] = {1e9, 1.0, 1e6, 2.4e9, 1000.0, 2399987654.321, 3e9, 4294967296.0, 1e10, 0.5, 33333333.25, 1e12};
    switch (t.draw(3)) {
        case 0: return t.pick(fixed);
        case 1: return double(1 + t.draw(6000000000ULL));
        default: return std::ldexp(1.0 + double(t.draw(1ULL << 52)) / double(1ULL << 52), int(t.draw(36)));
    }
}

static long double rel(long double x) { return x * 0x1p-49L; }

static void near(pbt::Tape &t, const char *fn, uint64_t in, double rate, long double got, long double want, long double slack) {
    if (std::fabs(got - want) > slack + rel(std::fabs(want)))
        t.fail("%s of %llu at %.17g Hz gives %.6Lf, exact value %.6Lf", fn, (unsigned long long)in, rate, got, want);
}

static void prop(pbt::Tape &t) {
    double given = genRate(t);
    bool local = t.chance(20);      // no rate given: the calibrated one is used
    double rate = local ? Cycles::perSecond() : given;
    double arg = local ? 0 : given;
    if (!(rate > 0)) t.fail("the clock rate is %g", rate);
    const long double LIM = 9.0e18L;
    uint64_t a = t.bits() >> 1, b;
    b = t.draw(2) ? a + t.draw(5) : t.bits() >> 1;
    if (b > INT64_MAX) b = INT64_MAX;
    if (a > b) std::swap(a, b);
    t.note("rate %.17g%s cycles %llu %llu\n", rate, local ? " (calibrated)" : "", (unsigned long long)a, (unsigned long long)b);
    t.key = std::to_string(rate) + "/" + std::to_string(a) + "/" + std::to_string(b);
    t.nontrivial = a > 0 || b > 0;
    long double r = rate;

    // seconds, both signs
    for (uint64_t c : {a, b}) {
        double s = Cycles::toSeconds(int64_t(c), arg);
        long double e = (long double)c / r;
        if (std::fabs((long double)s - e) > e * 0x1p-51L) t.fail("toSeconds(%llu) at %.17g Hz gives %.17g, exact value %.20Lg", (unsigned long long)c, rate, s, e);
        double n = Cycles::toSeconds(-int64_t(c), arg);
        if (n != -s) t.fail("toSeconds(-%llu) at %.17g Hz gives %.17g, toSeconds(%llu) gives %.17g", (unsigned long long)c, rate, n, (unsigned long long)c, s);
        // and back
        if ((long double)c < LIM) near(t, "fromSeconds(toSeconds())", c, rate, (long double)Cycles::fromSeconds(s, arg), (long double)c, 1.0L);
    }
    if (Cycles::toSeconds(int64_t(a), arg) > Cycles::toSeconds(int64_t(b), arg)) t.fail("toSeconds is not monotonic: %llu, %llu at %.17g Hz", (unsigned long long)a, (unsigned long long)b, rate);

    // cycles -> ns, us
    if ((long double)b * 1e9L / r < LIM) {
        for (uint64_t c : {a, b}) {
            long double e = (long double)c * 1e9L / r;
            uint64_t ns = Cycles::toNanoseconds(c, arg);
            near(t, "toNanoseconds", c, rate, (long double)ns, e, 0.5001L);
            near(t, "toMicroseconds", c, rate, (long double)Cycles::toMicroseconds(c, arg), e / 1000.0L, 1.001L);
            // a count survives the trip through nanoseconds up to the resolution of a nanosecond
            near(t, "fromNanoseconds(toNanoseconds())", c, rate, (long double)Cycles::fromNanoseconds(ns, arg), (long double)c, 0.5L * r / 1e9L + 0.51L + rel((long double)c) * 4);
        }
        if (Cycles::toNanoseconds(a, arg) > Cycles::toNanoseconds(b, arg)) t.fail("toNanoseconds is not monotonic: %llu, %llu at %.17g Hz", (unsigned long long)a, (unsigned long long)b, rate);
        if (Cycles::toMicroseconds(a, arg) > Cycles::toMicroseconds(b, arg)) t.fail("toMicroseconds is not monotonic: %llu, %llu at %.17g Hz", (unsigned long long)a, (unsigned long long)b, rate);
        t.extra[0]++;
    }
    // ns -> cycles (a, b as nanoseconds)
    if ((long double)b * r / 1e9L < LIM) {
        for (uint64_t n : {a, b}) {
            long double e = (long double)n * r / 1e9L;
            uint64_t c = Cycles::fromNanoseconds(n, arg);
            near(t, "fromNanoseconds", n, rate, (long double)c, e, 0.5001L);
            if ((long double)n < LIM)
                near(t, "toNanoseconds(fromNanoseconds())", n, rate, (long double)Cycles::toNanoseconds(c, arg), (long double)n, 0.5L * 1e9L / r + 0.51L + rel((long double)n) * 4);
        }
        if (Cycles::fromNanoseconds(a, arg) > Cycles::fromNanoseconds(b, arg)) t.fail("fromNanoseconds is not monotonic: %llu, %llu at %.17g Hz", (unsigned long long)a, (unsigned long long)b, rate);
        t.extra[1]++;
    }
    // seconds -> cycles
    double s1 = double(a) / 1e9, s2 = double(b) / 1e9;
    if ((long double)s2 * r < LIM) {
        near(t, "fromSeconds", a, rate, (long double)Cycles::fromSeconds(s1, arg), (long double)s1 * r, 0.5001L);
        near(t, "fromSeconds", b, rate, (long double)Cycles::fromSeconds(s2, arg), (long double)s2 * r, 0.5001L);
        if (Cycles::fromSeconds(s1, arg) > Cycles::fromSeconds(s2, arg)) t.fail("fromSeconds is not monotonic: %.17g, %.17g at %.17g Hz", s1, s2, rate);
        t.extra[2]++;
    }
    // the calibrated rate against the clock, now and then (the best of several tries: interruptions only add error)
    if (t.draw(4000) == 3999) {
        double best = 1e9;
        for (int k = 0; k < 12 && best > 0.002; ++k) {
            struct timespec t0, t1;
            auto bracket = [](struct timespec *ts) {    // cycle count in the middle of a quick clock reading
                uint64_t c0, c1;
                int tries = 0;
                do { c0 = Cycles::rdtsc(); clock_gettime(CLOCK_MONOTONIC_RAW, ts); c1 = Cycles::rdtsc(); } while (c1 - c0 > 20000 && ++tries < 1000);
                return c0 + (c1 - c0) / 2;
            };
            uint64_t c0 = bracket(&t0);
            usleep(30000);
            uint64_t c1 = bracket(&t1);
            double el = double(t1.tv_sec - t0.tv_sec) + 1e-9 * double(t1.tv_nsec - t0.tv_nsec);
            best = std::min(best, std::fabs(Cycles::toSeconds(int64_t(c1 - c0)) / el - 1.0));
        }
        if (best > 0.01) t.fail("the calibrated rate %.17g is off by %.3g%% from the clock", Cycles::perSecond(), best * 100);
        uint64_t us = t.draw(3000);
        struct timespec t0, t1;
        clock_gettime(CLOCK_MONOTONIC_RAW, &t0);
        Cycles::sleep(us);
        clock_gettime(CLOCK_MONOTONIC_RAW, &t1);
        double el = 1e6 * double(t1.tv_sec - t0.tv_sec) + 1e-3 * double(t1.tv_nsec - t0.tv_nsec);
        if (el < double(us) * 0.98 - 1) t.fail("sleep(%llu) took %.2f us", (unsigned long long)us, el);
        t.extra[3]++;
    }
}

int main(int argc, char **argv) { return pbt::run(argc, argv, "P22", prop); }
