// Value generation and expectation recording for generated logging programs.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <wchar.h>
typedef long double ldouble;
// Deterministic generator of argument values, biased to boundaries.
uint64_t gv_bits();
uint64_t gv_int();
double gv_double();
float gv_float();
ldouble gv_ldouble();
const char *gv_str();                    // NUL-terminated
const wchar_t *gv_wstr();
const char *gv_strn(long minBytes);      // exactly max(minBytes,0) readable bytes, possibly without a terminator
const wchar_t *gv_wstrn(long minChars);
int gv_width();
int gv_prec();
void *gv_ptr();
int gv_wc();
template<typename T> T gv() { return (T)gv_int(); }
template<> inline double gv<double>() { return gv_double(); }
template<> inline float gv<float>() { return gv_float(); }
template<> inline ldouble gv<ldouble>() { return gv_ldouble(); }
template<> inline bool gv<bool>() { return gv_bits() & 1; }
// Appends "<level> <line> <fileLen> <textLen>\n<file><text>\n" to the expectation file.
void gv_expect(int lvl, const char *file, int line, const char *fmt, ...);
void gv_expect_printed(int lvl, const char *file, int line, const char *fmt, ...);
typedef void (*GvFn)();
