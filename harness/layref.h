// Reference meaning of NANO_LOG: forced into programs that are built without the preprocessor.
#pragma once
#include "NanoLog.h"
struct RefLog {
    int line;
    const char *file;
    void operator()(int lvl, const char *fmt, ...) const __attribute__((format(printf, 3, 4)));
};
#define NANO_LOG RefLog{__LINE__, __FILE__}
