// What generated programs call between log statements: everything is traced with its value, line and file.
#pragma once
#include <string>
void lay_event(char kind, int id, const char *text, int line, const char *file);
inline void T(int v, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('T', v, "", line, file); }
inline void M(int v, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('M', v, "", line, file); }
inline void S(const char *s, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('S', 0, s, line, file); }
template<typename X> X E(int id, X v, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('E', id, "", line, file); return v; }
template<typename A, typename B> int f2(int a, int b) { return (int)(sizeof(A) * 100 + sizeof(B)) + a * b; }
inline void NANO_LOGGER(int v, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('g', v, "", line, file); }
inline void MY_NANO_LOG(int v, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('m', v, "", line, file); }
inline void _NANO_LOG(int v, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('_', v, "", line, file); }
inline void NANO_LOG_(int v, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('u', v, "", line, file); }
inline void NANO_LOG2(int v, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('2', v, "", line, file); }
inline void NNANO_LOG(int v, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('N', v, "", line, file); }
inline void xNANO_LOG(int v, const char *f, int k, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('x', v + k, f, line, file); }
inline void n9NANO_LOG(int v, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('i', v, "n9NANO_LOG", line, file); }
inline void x0NANO_LOG(int v, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('i', v, "x0NANO_LOG", line, file); }
inline void ZNANO_LOG(int v, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('i', v, "ZNANO_LOG", line, file); }
inline void __NANO_LOG(int v, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('i', v, "__NANO_LOG", line, file); }
inline void a_NANO_LOG(int v, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('i', v, "a_NANO_LOG", line, file); }
inline void NANO_NANO_LOG(int v, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('i', v, "NANO_NANO_LOG", line, file); }
inline void NANO_LOGNANO_LOG(int v, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('i', v, "NANO_LOGNANO_LOG", line, file); }
inline void nano5_2NANO_LOG(int v, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('i', v, "nano5_2NANO_LOG", line, file); }
inline void NANO_LOG0(int v, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('i', v, "NANO_LOG0", line, file); }
inline void NANO_LOG9x(int v, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('i', v, "NANO_LOG9x", line, file); }
inline void NANO_LOGa(int v, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('i', v, "NANO_LOGa", line, file); }
inline void NANO_LOGZ(int v, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('i', v, "NANO_LOGZ", line, file); }
inline void NANO_LOG__(int v, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('i', v, "NANO_LOG__", line, file); }
inline void NANO_LO(int v, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('i', v, "NANO_LO", line, file); }
inline void ANO_LOG(int v, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('i', v, "ANO_LOG", line, file); }
inline void Nano_Log(int v, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('i', v, "Nano_Log", line, file); }
inline void NANO_LOG_NANO_LOG(int v, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('i', v, "NANO_LOG_NANO_LOG", line, file); }
namespace nsp { inline void NANO_LOGGER(int v, int line = __builtin_LINE(), const char *file = __builtin_FILE()) { lay_event('n', v, "", line, file); } }
