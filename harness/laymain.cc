// laymain <trace> <expectations> <log or ->
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <string>
#include <vector>
#ifdef LAYREF
#include "layref.h"
#undef NANO_LOG
#else
#include "NanoLog.h"
#endif
#include "lay.h"
extern FILE *gvExp;
void lay_run(int, int);
static FILE *trace;
void lay_event(char kind, int id, const char *text, int line, const char *file) {
    fprintf(trace, "%c %d %s:%d %s\n", kind, id, file, line, text);
}
#ifdef LAYREF
void RefLog::operator()(int lvl, const char *fmt, ...) const {
    va_list ap, ap2;
    va_start(ap, fmt);
    va_copy(ap2, ap);
    int n = vsnprintf(nullptr, 0, fmt, ap);
    std::vector<char> b(n + 1);
    vsnprintf(b.data(), n + 1, fmt, ap2);
    va_end(ap);
    va_end(ap2);
    fprintf(gvExp, "%d %d %zu %d\n%s", lvl, line, strlen(file), n, file);
    fwrite(b.data(), 1, n, gvExp);
    fputc('\n', gvExp);
}
#endif
#ifdef LAYREF
FILE *gvExp;
#endif
int main(int argc, char **argv) {
    trace = fopen(argv[1], "w");
    gvExp = fopen(argv[2], "wb");
#ifndef LAYREF
    NanoLog::setLogFile(argv[3]);
    NanoLog::setLogLevel(NanoLog::DEBUG);
#endif
    for (int a = 0; a < 4; ++a)
        for (int b = 0; b < 3; ++b) {
            fprintf(trace, "run %d %d\n", a, b);
            lay_run(a, b);
        }
#ifndef LAYREF
    NanoLog::sync();
#endif
    fclose(trace);
    fclose(gvExp);
    return 0;
}
