#include "gv.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <float.h>
#include <vector>
#include <string>

uint64_t gvState = 88172645463325252ull;
long gvBig = 0;         // permit strings up to this length now and then
FILE *gvExp;
static std::vector<void *> *arena = new std::vector<void *>;

void gv_free() { for (void *p : *arena) free(p); arena->clear(); }
static void *keep(size_t n) { void *p = malloc(n ? n : 1); arena->push_back(p); return p; }

uint64_t gv_bits() {
    gvState ^= gvState << 13; gvState ^= gvState >> 7; gvState ^= gvState << 17;
    return gvState * 2685821657736338717ull;
}
static unsigned u(unsigned n) { return (unsigned)((gv_bits() >> 20) % n); }
uint64_t gv_int() {
    switch (u(8)) {
        case 0: return u(3) - 1;
        case 1: return u(256);
        case 2: { uint64_t p = 1ull << u(64); return p + u(3) - 1; }
        case 3: { uint64_t p = 1ull << u(64); return 0 - p + u(3) - 1; }
        case 4: return 0 - (uint64_t)u(70000);
        case 5: { uint64_t p = 1ull << (8 * (u(8) + 1) - 1); p = p << u(2); return (u(2) ? p : 0 - p) + u(3) - 1; }
        default: return (gv_bits() >> u(64)) * (u(2) ? 1 : -1);
    }
}
double gv_double() {
    static const double sp[] = {0.0, -0.0, 1.0, -1.0, 0.5, 1e10, 1e-10, 123456.789, DBL_MAX, -DBL_MAX, DBL_MIN, 4.9e-324, 0.1, 2.5, 1e100, 9.995, 99999.5};
    switch (u(5)) {
        case 0: return sp[u(sizeof sp / sizeof *sp)];
        case 1: switch (u(6)) { case 0: return INFINITY; case 1: return -INFINITY; case 2: return NAN; case 3: return -NAN; default: return u(1000); }
        case 2: return (double)(int64_t)gv_int() / 1024.0;
        case 3: { uint64_t b = gv_bits(); double d; memcpy(&d, &b, 8); return d; }
        default: return (double)(int32_t)u(2000000) / 1000.0 - 1000.0;
    }
}
float gv_float() { return u(4) ? (float)((int)u(2000000) / 1000.0 - 1000.0) : (float)gv_double(); }
ldouble gv_ldouble() {
    switch (u(5)) {
        case 0: return LDBL_MAX;
        case 1: return (ldouble)gv_int() / 3;
        case 2: return ldexpl((ldouble)gv_bits(), (int)u(2000) - 1000);
        default: return (ldouble)gv_double();
    }
}
static long len() {
    switch (u(10)) {
        case 0: return 0;
        case 1: return 1;
        case 2: return u(300);
        case 3: if (u(20) == 0) return u(5000); return u(40);
        case 4: if (gvBig && u(60) == 0) { return gvBig - u(100); } return u(9);
        default: return u(24);
    }
}
static void fill(char *p, long n, int style) {
    static const char odd[] = "%d%s%%\\n\\\"'\r\n\t{}[]: #*.-+ 0123456789%ls%5.3f";
    for (long i = 0; i < n; ++i)
        p[i] = style == 0 ? 'a' + u(26) : style == 1 ? (char)(1 + u(255)) : odd[u(sizeof odd - 1)];
}
const char *gv_str() {
    long n = len();
    char *p = (char *)keep(n + 1);
    fill(p, n, u(3));
    p[n] = 0;
    return p;
}
const wchar_t *gv_wstr() {
    long n = len();
    if (n > 40000) n = 40000;
    wchar_t *p = (wchar_t *)keep((n + 1) * sizeof(wchar_t));
    for (long i = 0; i < n; ++i) p[i] = (wchar_t)(1 + u(126));
    p[n] = 0;
    return p;
}
const char *gv_strn(long m) {
    if (m < 0) return gv_str();
    long n = u(3) ? m : (long)u((unsigned)m + 8);
    if (n >= m) {       // at least the bytes that will be printed: no terminator
        char *p = (char *)keep(n);
        fill(p, n, u(3));
        return p;
    }
    char *p = (char *)keep(n + 1);
    fill(p, n, u(3));
    p[n] = 0;
    return p;
}
const wchar_t *gv_wstrn(long m) {
    if (m < 0) return gv_wstr();
    long n = u(3) ? m : (long)u((unsigned)m + 8);
    bool term = n < m;
    wchar_t *p = (wchar_t *)keep((n + term) * sizeof(wchar_t));
    for (long i = 0; i < n; ++i) p[i] = (wchar_t)(1 + u(126));
    if (term) p[n] = 0;
    return p;
}
int gv_width() { switch (u(6)) { case 0: return 0; case 1: return -(int)u(40); case 2: return (int)u(300); case 3: return -1; default: return (int)u(30); } }
int gv_prec() { switch (u(6)) { case 0: return 0; case 1: return -(int)u(40); case 2: return (int)u(60); case 3: return -1; default: return (int)u(15); } }
void *gv_ptr() { return (void *)(uintptr_t)(u(4) ? gv_bits() >> u(64) : gv_int()); }
int gv_wc() { return 1 + (int)u(126); }

int gvLevel = 99;        // statements above it expect nothing
void gv_expect(int lvl, const char *file, int line, const char *fmt, ...) {
    if (lvl > gvLevel) return;
    static std::vector<char> buf(1 << 16);
    va_list ap, ap2;
    va_start(ap, fmt);
    va_copy(ap2, ap);
    int n = vsnprintf(buf.data(), buf.size(), fmt, ap);
    if (n >= (int)buf.size()) {
        buf.resize(n + 1);
        vsnprintf(buf.data(), buf.size(), fmt, ap2);
    }
    va_end(ap);
    va_end(ap2);
    fprintf(gvExp, "%d %d %zu %d\n%s", lvl, line, strlen(file), n, file);
    fwrite(buf.data(), 1, n, gvExp);
    fputc('\n', gvExp);
}
