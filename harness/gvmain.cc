// Driver of a generated logging program: gvmain <log> <expect> <seed> <rounds> [only-statement] [big]
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include GV_HEADER
#include "gv.h"
extern uint64_t gvState;
extern long gvBig;
extern FILE *gvExp;
extern void gv_free();
extern GvFn gvTable[];
extern const int gvCount;
int main(int argc, char **argv) {
    gvExp = fopen(argv[2], "wb");
    uint64_t seed = strtoull(argv[3], 0, 10);
    long rounds = atol(argv[4]);
    int only = argc > 5 ? atoi(argv[5]) : -1;
    gvBig = argc > 6 ? atol(argv[6]) : 0;
    gvState = seed * 0x9E3779B97F4A7C15ull + 12345;
    for (int i = 0; i < 10; ++i) gv_bits();
    if (strcmp(argv[1], "-")) NanoLog::setLogFile(argv[1]);     // "-": the default file in the working directory
    NanoLog::setLogLevel(NanoLog::LogLevels::DEBUG);
    for (long i = 0; i < rounds; ++i) {
        int k = i < gvCount ? (int)i : (int)(gv_bits() % gvCount);
        uint64_t save = gvState;
        if (only < 0 || only == k) gvTable[k]();
        else gvState = save * 3 + 1;    // keep the stream moving
        gv_free();
        gv_bits();
    }
    NanoLog::sync();
    fclose(gvExp);
    return 0;
}
