// Decodes logs with the library's own decoder:  nldec <mode> <file> <out> [prefix-bytes] ...repeated
//   modes: u unordered, o ordered, i iterate while printing. The exit code is 0 if all could be opened.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "Log.h"
// Fast clock calibration: the decoder uses the clock rate stored in the log.
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept {
    static long us = 0;
    us += 100000;
    tv->tv_sec = us / 1000000; tv->tv_usec = us % 1000000;
    return 0;
}
using namespace NanoLogInternal;
static int one(const char *mode, const char *path, const char *out) {
    FILE *f = fopen(out, "wb");
    static char big[1 << 16];
    setvbuf(f, big, _IOFBF, sizeof big);
    Log::Decoder d;
    if (!d.open(path)) { fclose(f); return 3; }
    int rc = 0;
    if (*mode == 'u') { if (d.decompressUnordered(f) < 0) rc = 4; }
    else if (*mode == 'o') { if (d.decompressTo(f) < 0) rc = 4; }
    else {
        Log::LogMessage m;
        while (d.getNextLogStatement(m, f)) {}
    }
    fclose(f);
    return rc;
}
int main(int argc, char **argv) {
    for (int i = 1; i + 3 < argc + 0 + 1 && i + 2 < argc; i += 3) {
        int rc = one(argv[i], argv[i + 1], argv[i + 2]);
        if (rc) return rc;
    }
    fflush(stdout);
    _exit(0);
}
