// Shared between the scenario interpreter (rt.cc) and the generated log sites.
#pragma once
#include <stddef.h>
void rec_begin(int t, int s, int site, int lvl, const char *file, int line, const char *fmt, ...) __attribute__((format(printf, 7, 8)));
void rec_end(int t, int s);
typedef void (*SiteFn)(int t, int s, long v, const char *str, int len);
extern SiteFn siteTable[];
extern const int siteCount;
