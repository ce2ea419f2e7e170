// Driver of the log-level histories: lvmain <log> <expect> <history>. The history is a list of words:
//   v<n> setLogLevel(n)   g getLogLevel()   l<k> statement k   s sync   ( ... ) the ops in between in a thread, joined
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <string>
#include <vector>
#include GV_HEADER
#include "gv.h"
extern uint64_t gvState;
extern long gvBig;
extern FILE *gvExp;
extern int gvLevel;
extern void gv_free();
extern GvFn gvTable[];
extern const int gvCount;
static std::vector<std::string> *ops;
static size_t pos;
static int nthreads, cur;
static void thread_mark(int t) { fprintf(gvExp, "%d 0 0 0\n\n", -1 - t); }
static void *body(void *);
static void runOps() {
    while (pos < ops->size()) {
        const std::string &o = (*ops)[pos++];
        int n = atoi(o.c_str() + 1);
        switch (o[0]) {
            case 'v':
                NanoLog::setLogLevel((NanoLog::LogLevels::LogLevel)n);
                gvLevel = n < 0 ? 0 : n > 4 ? 4 : n;
                break;
            case 'g': {
                int g = (int)NanoLog::getLogLevel();
                if (gvLevel < 99 && g != gvLevel) { fprintf(stderr, "getLogLevel() returns %d after the level was set to %d (op %zu)\n", g, gvLevel, pos - 1); fflush(stderr); fclose(gvExp); _Exit(31); }
                break;
            }
            case 'l': gvTable[n % gvCount](); gv_free(); break;
            case 's': NanoLog::sync(); break;
            case '(': {
                pthread_t t;
                int c = cur;
                cur = ++nthreads;
                thread_mark(cur);
                pthread_create(&t, nullptr, body, nullptr);
                pthread_join(t, nullptr);
                cur = c;
                thread_mark(cur);
                break;
            }
            case ')': return;
        }
    }
}
static void *body(void *) { runOps(); return nullptr; }
int main(int argc, char **argv) {
    gvExp = fopen(argv[2], "wb");
    gvState = 12345;
    FILE *f = fopen(argv[3], "r");
    ops = new std::vector<std::string>;
    char w[64];
    while (fscanf(f, "%60s", w) == 1) ops->push_back(w);
    NanoLog::setLogFile(argv[1]);
    gvLevel = (int)NanoLog::getLogLevel();
    if (gvLevel < 0 || gvLevel > 4) { fprintf(stderr, "the initial level is %d\n", gvLevel); return 31; }
    thread_mark(0);
    runOps();
    fclose(gvExp);
    return 0;
}
