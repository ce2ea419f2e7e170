// Encoder/decoder harness pieces: a table of generated log statements, staging-buffer entries made with the C++17 flavour's own
// argument code, expected texts made with snprintf, and decoding through Log::Decoder. Compiled with -DPREPROCESSOR_NANOLOG the
// same statements are served through stand-ins for the generated code.
#ifndef ENC_H
#define ENC_H
#include "TestUtil.h"
#include "RuntimeLogger.h"
#include "NanoLogCpp17.h"
#include "Log.h"
#include "GeneratedCode.h"
#include "pbt.h"
#include <string>
#include <vector>
#include <functional>
#include <algorithm>
#include <memory>
#include <sys/mman.h>
#include <unistd.h>

namespace enc {
using namespace NanoLogInternal;
using pbt::Tape;

struct Arg {                    // one decoded (counted) argument
    char kind = 0;              // i: integer bits of `size` bytes, f: double, L: long double, s: string, w: wide string
    int size = 0;
    uint64_t bits = 0;
    std::string s;
    std::wstring w;
};
struct Reg {                    // a registered statement
    int stmt;
    std::string file;
    uint32_t line;
    int sev;
    std::string fmt;
};
struct Msg {
    uint32_t reg = 0, thread = 0;
    uint64_t ts = 0;
    std::vector<char> bytes;    // staging-buffer form
    std::string text;
    std::vector<Arg> args;
};
static const char *levelName(int l) { static const char *n[] = {"(none)", "ERROR", "WARNING", "NOTICE", "DEBUG"}; return n[l]; }

inline void addArg(Msg &m, ParamType p, const char *s, int &prec) {
    if (p == NON_STRING) { Arg a; a.kind = 'i'; a.size = 8; a.bits = uint64_t(s); m.args.push_back(a); return; }
    Arg a; a.kind = 's';
    size_t n = strlen(s);
    if (p >= 0 && size_t(p) < n) n = size_t(p);
    if (p == STRING_WITH_DYNAMIC_PRECISION && prec >= 0 && size_t(prec) < n) n = size_t(prec);
    a.s.assign(s, n);
    m.args.push_back(a);
}
inline void addArg(Msg &m, ParamType p, const wchar_t *s, int &prec) {
    Arg a; a.kind = 'w';
    size_t n = wcslen(s);
    if (p >= 0 && size_t(p) < n) n = size_t(p);
    if (p == STRING_WITH_DYNAMIC_PRECISION && prec >= 0 && size_t(prec) < n) n = size_t(prec);
    a.w.assign(s, n);
    m.args.push_back(a);
}
inline void addArg(Msg &m, ParamType, const void *s, int &) { Arg a; a.kind = 'i'; a.size = 8; a.bits = uint64_t(s); m.args.push_back(a); }
inline void addArg(Msg &m, ParamType, double d, int &) { Arg a; a.kind = 'f'; memcpy(&a.bits, &d, 8); m.args.push_back(a); }
inline void addArg(Msg &m, ParamType, long double, int &) { Arg a; a.kind = 'L'; m.args.push_back(a); }
template <typename T> typename std::enable_if<std::is_integral<T>::value>::type addArg(Msg &m, ParamType p, T v, int &prec) {
    if (p == DYNAMIC_WIDTH) return;
    if (p == DYNAMIC_PRECISION) { prec = int(v); return; }
    Arg a; a.kind = 'i'; a.size = sizeof(T); a.bits = 0; memcpy(&a.bits, &v, sizeof(T)); m.args.push_back(a);
}
inline void addArgs(Msg &, const ParamType *, int &) {}
template <typename T, typename... Ts> void addArgs(Msg &m, const ParamType *p, int &prec, T h, Ts... r) { addArg(m, *p, h, prec); addArgs(m, p + 1, prec, r...); }

template <const auto &F, typename... Ts> struct S {
    static constexpr int nP = countFmtParams(F);
    static constexpr std::array<ParamType, nP> pt = analyzeFormatString<nP>(F);
    static StaticLogInfo info(const Reg &r) {
        return StaticLogInfo(&compress<Ts...>, r.file.c_str(), r.line, uint8_t(r.sev), F, sizeof...(Ts), getNumNibblesNeeded(F), pt.data());
    }
    static void comp(char *in, char **out) { compress<Ts...>(getNumNibblesNeeded(F), pt.data(), &in, out); }
    static void make(Msg &m, Ts... args) {
        static_assert(nP == sizeof...(Ts), "statement");
        uint64_t pp = uint64_t(-1);
        size_t sizes[nP + 1] = {};
        size_t n = getArgSizes(pt, pp, sizes, args...) + sizeof(Log::UncompressedEntry);
        m.bytes.assign(n, 0);
        char *w = m.bytes.data() + sizeof(Log::UncompressedEntry);
        store_arguments(pt, sizes, &w, args...);
        if (size_t(w - m.bytes.data()) != n) throw pbt::Failure{"the stored arguments do not fill the computed entry size"};
        Log::UncompressedEntry ue;
        ue.fmtId = m.reg; ue.entrySize = uint32_t(n); ue.timestamp = m.ts;
        memcpy(m.bytes.data(), &ue, sizeof ue);
        int len = snprintf(nullptr, 0, F, args...);
        m.text.assign(size_t(len) + 1, 0);
        snprintf(&m.text[0], size_t(len) + 1, F, args...);
        m.text.resize(size_t(len));
        m.args.clear();
        int prec = -1;
        addArgs(m, pt.data(), prec, args...);
    }
};

// ---- values
struct Gen {
    Tape &t;
    int big;                    // upper bound of a string
    std::vector<std::string> keep;
    std::vector<std::wstring> wkeep;
    Gen(Tape &t, int big) : t(t), big(big) { keep.reserve(64); wkeep.reserve(16); }
    template <typename T> T i() { return T(t.bits()); }
    double d() {
        static const double k[] = {0, 1, -1, 0.5, 1e300, -1e-300, 3.14159, 1.0 / 0.0, -0.0};
        if (t.chance(60)) return k[t.draw(9)];
        uint64_t b = t.draw(0); double x; memcpy(&x, &b, 8);
        return x == x ? x : 2.5;
    }
    const char *str(int hi = -1) {
        if (hi < 0) hi = t.chance(15) ? big : 40;
        if (hi > big) hi = big;
        size_t n = size_t(t.draw(uint64_t(hi) + 1));
        std::string s(n, 'x');
        uint64_t k = t.draw(5), o = t.draw(90);
        for (size_t j = 0; j < n; ++j) s[j] = k == 0 ? char('a' + j % 26) : k == 1 ? char(' ' + (j * 7 + o) % 95) : k == 2 ? char(128 + (j + o) % 127) : k == 3 ? '%' : char('0' + (j + o) % 10);
        keep.push_back(s);
        return keep.back().c_str();
    }
    const wchar_t *wstr(int hi = 30) {
        size_t n = size_t(t.draw(uint64_t(hi) + 1));
        std::wstring s;
        for (size_t j = 0; j < n; ++j) s.push_back(wchar_t('A' + (j * 5 + n) % 50));
        wkeep.push_back(s);
        return wkeep.back().c_str();
    }
};
struct Stmt {
    std::function<StaticLogInfo(const Reg &)> info;
    void (*comp)(char *, char **);
    std::function<void(Gen &, Msg &)> make;
    const char *fmt;
    bool ld;
};
static std::vector<Stmt> &stmts() { static std::vector<Stmt> v; return v; }
struct Add { Add(Stmt s) { stmts().push_back(s); } };
#define ENC_T(...) __VA_ARGS__
#define ENC_STMT(N, FMT, LD, TYPES, ...) \
    static constexpr char fmt##N[] = FMT; \
    static Add add##N(Stmt{[](const Reg &r) { return S<fmt##N TYPES>::info(r); }, &S<fmt##N TYPES>::comp, \
        [](Gen &g, Msg &m) { (void)g; S<fmt##N TYPES>::make(m __VA_ARGS__); }, fmt##N, LD});
typedef const char *CS; typedef const wchar_t *WS; typedef const void *VP; typedef unsigned long long ULL; typedef long long LL; typedef long double LD;
typedef unsigned char UC; typedef unsigned short US; typedef signed char SC; typedef unsigned long UL;
ENC_STMT(0, "%d", false, ENC_T(, int), , g.i<int>())
ENC_STMT(1, "message without arguments", false, )
ENC_STMT(2, "u=%u ul=%lu ull=%llu", false, ENC_T(, unsigned, UL, ULL), , g.i<unsigned>(), g.i<UL>(), g.i<ULL>())
ENC_STMT(3, "%s", false, ENC_T(, CS), , g.str())
ENC_STMT(4, "%s|%s %d", false, ENC_T(, CS, CS, int), , g.str(), g.str(), g.i<int>())
ENC_STMT(5, "%hhd %hd %c.", false, ENC_T(, SC, short, int), , g.i<SC>(), g.i<short>(), int('A' + g.t.draw(26)))
ENC_STMT(6, "%f %Lf", true, ENC_T(, double, LD), , g.d(), LD(g.d()))
ENC_STMT(7, "%p", false, ENC_T(, VP), , VP(g.i<uint64_t>()))
ENC_STMT(8, "w %*d", false, ENC_T(, int, LL), , int(g.t.range(-20, 20)), g.i<int>())
ENC_STMT(9, "p %.*s end", false, ENC_T(, int, CS), , int(g.t.range(-1, 30)), g.str())
ENC_STMT(10, "wp %-*.*f", false, ENC_T(, int, int, double), , int(g.t.range(0, 20)), int(g.t.range(0, 9)), g.d())
ENC_STMT(11, "%ls wide %d", false, ENC_T(, WS, int), , g.wstr(), g.i<int>())
ENC_STMT(12, "%d %d %d %d %d %d %d %d %d %d %d %d", false, ENC_T(, int, int, int, int, int, int, int, int, int, int, int, int), , g.i<int>(), g.i<int>(), g.i<int>(), g.i<int>(), g.i<int>(), g.i<int>(), g.i<int>(), g.i<int>(), g.i<int>(), g.i<int>(), g.i<int>(), g.i<int>())
ENC_STMT(13, "%lu %s %hu %s %lld %ls %x %f %c %s %zu %s %p %hhu %.3s %d %s %lu %u %s %ld %s %g %u %lx", false,
         ENC_T(, UL, CS, US, CS, LL, WS, unsigned, double, int, CS, size_t, CS, VP, UC, CS, int, CS, UL, unsigned, CS, long, CS, double, unsigned, UL), ,
         g.i<UL>(), g.str(12), g.i<US>(), g.str(12), g.i<LL>(), g.wstr(8), g.i<unsigned>(), g.d(), int('a' + g.t.draw(26)), g.str(12), g.i<size_t>(), g.str(12), VP(g.i<uint64_t>()), g.i<UC>(), g.str(12), g.i<int>(), g.str(12), g.i<UL>(), g.i<unsigned>(), g.str(12), g.i<long>(), g.str(12), g.d(), g.i<unsigned>(), g.i<UL>())
ENC_STMT(14, "100%% sure", false, )
ENC_STMT(15, "%.5s", false, ENC_T(, CS), , g.str())
ENC_STMT(16, "big %s", false, ENC_T(, CS), , g.str(g.big))
ENC_STMT(17, "%lu", false, ENC_T(, UL), , g.i<UL>())
ENC_STMT(18, "%x%x%x", false, ENC_T(, unsigned, unsigned, unsigned), , g.i<unsigned>(), g.i<unsigned>(), g.i<unsigned>())
ENC_STMT(19, "%e %g %a", false, ENC_T(, double, double, double), , g.d(), g.d(), g.d())
ENC_STMT(20, "%ls%ls%.2ls", false, ENC_T(, WS, WS, WS), , g.wstr(), g.wstr(), g.wstr())
ENC_STMT(21, "%hhu %ho %i %ji %zd %td", false, ENC_T(, UC, US, int, intmax_t, ssize_t, ptrdiff_t), , g.i<UC>(), g.i<US>(), g.i<int>(), g.i<intmax_t>(), g.i<ssize_t>(), g.i<ptrdiff_t>())
ENC_STMT(22, "%d %s %d %s %d %s %d %s %d %s %d", false, ENC_T(, int, CS, int, CS, int, CS, int, CS, int, CS, int), , g.i<int>(), g.str(9), g.i<int>(), g.str(9), g.i<int>(), g.str(9), g.i<int>(), g.str(9), g.i<int>(), g.str(9), g.i<int>())
ENC_STMT(23, "%f %f %f %f %f %f %f %f %f %f", false, ENC_T(, double, double, double, double, double, double, double, double, double, double), , g.d(), g.d(), g.d(), g.d(), g.d(), g.d(), g.d(), g.d(), g.d(), g.d())
ENC_STMT(24, "%d %lu %hd %d %lu %hd %d %lu %hd %d %lu %hd %d %lu %hd %d %lu %hd %d %lu %hd %d %lu %hd %d %lu %hd %d %lu %hd %d %lu %hd %d %lu %hd %d %lu %hd %d %lu %hd %d %lu %hd", false, ENC_T(, int, UL, short, int, UL, short, int, UL, short, int, UL, short, int, UL, short, int, UL, short, int, UL, short, int, UL, short, int, UL, short, int, UL, short, int, UL, short, int, UL, short, int, UL, short, int, UL, short, int, UL, short), , g.i<int>(), g.i<UL>(), g.i<short>(), g.i<int>(), g.i<UL>(), g.i<short>(), g.i<int>(), g.i<UL>(), g.i<short>(), g.i<int>(), g.i<UL>(), g.i<short>(), g.i<int>(), g.i<UL>(), g.i<short>(), g.i<int>(), g.i<UL>(), g.i<short>(), g.i<int>(), g.i<UL>(), g.i<short>(), g.i<int>(), g.i<UL>(), g.i<short>(), g.i<int>(), g.i<UL>(), g.i<short>(), g.i<int>(), g.i<UL>(), g.i<short>(), g.i<int>(), g.i<UL>(), g.i<short>(), g.i<int>(), g.i<UL>(), g.i<short>(), g.i<int>(), g.i<UL>(), g.i<short>(), g.i<int>(), g.i<UL>(), g.i<short>(), g.i<int>(), g.i<UL>(), g.i<short>())

// ---- registered statements of a case
static std::vector<Reg> &regs() { static std::vector<Reg> v; return v; }
inline void genRegs(Tape &t, int n, bool noLd = false) {
    auto &r = regs();
    r.clear();
    r.reserve(256);
    static const char *files[] = {"main.cc", "a.h", "dir/sub/file.cc", "../x.cpp", "/an/absolute/path/with/many/components/and/a/long/name/of/the/source/file.cc"};
    for (int i = 0; i < n; ++i) {
        Reg x;
        do { x.stmt = int(t.draw(stmts().size())); } while (noLd && stmts()[size_t(x.stmt)].ld && (x.stmt = 0, false));
        x.file = t.pick(files);
        x.line = uint32_t(t.chance(20) ? t.bits() : 1 + t.draw(2000));
        x.sev = 1 + int(t.draw(4));
        x.fmt = stmts()[size_t(x.stmt)].fmt;
        r.push_back(x);
    }
}
inline StaticLogInfo infoOf(size_t i) { return stmts()[size_t(regs()[i].stmt)].info(regs()[i]); }
inline Msg genMsg(Tape &t, uint32_t reg, uint64_t ts, int big) {
    Msg m;
    m.reg = reg;
    m.ts = ts;
    Gen g(t, big);
    stmts()[size_t(regs()[reg].stmt)].make(g, m);
    return m;
}
inline std::string expect(const Msg &m) {
    const Reg &r = regs()[m.reg];
    return r.file + ":" + std::to_string(r.line) + " " + levelName(r.sev) + "[" + std::to_string(m.thread) + "]: " + m.text;
}

// ---- decoding
struct MemFile {
    int fd;
    std::string path;
    explicit MemFile(const std::string &b) : fd(memfd_create("log", 0)), path("/proc/self/fd/" + std::to_string(fd)) {
        size_t o = 0;
        while (o < b.size()) { ssize_t n = write(fd, b.data() + o, b.size() - o); if (n <= 0) { perror("memfd"); abort(); } o += size_t(n); }
    }
    ~MemFile() { close(fd); }
    MemFile(const MemFile &) = delete;
};
struct Capture {                // a stream collecting what is printed
    char *p = nullptr; size_t n = 0; FILE *f;
    Capture() : f(open_memstream(&p, &n)) {}
    std::string str() { fflush(f); return std::string(p, n); }
    ~Capture() { fclose(f); free(p); }
};
// A Decoder takes 1 GB of address space that its destructor keeps, so each process makes one per use and returns the space itself.
// (Written so that a Decoder that frees them itself, or names them otherwise, is fine too.)
template <typename D> auto freeMetadata(D &d, int) -> decltype((void)d.rawMetadata) { free(d.rawMetadata); d.rawMetadata = nullptr; }
template <typename D> void freeMetadata(D &, long) {}
template <typename D> auto freeFragment(D &d, int) -> decltype((void)d.bufferFragment) { delete d.bufferFragment; d.bufferFragment = nullptr; }
template <typename D> void freeFragment(D &, long) {}
struct Dec {
    Log::Decoder d;
    ~Dec() { freeMetadata(d, 0); freeFragment(d, 0); }
};
struct Line { bool marker; std::string time, rest; };
// Splits decompressor output into messages and execution markers; `total` gets the count of the closing line (-1 if there is none).
inline std::vector<Line> lines(Tape &t, const std::string &o, long *total = nullptr) {
    std::vector<Line> v;
    size_t p = 0;
    if (total) *total = -1;
    while (p < o.size()) {
        size_t e = o.find("\r\n", p);
        if (e == std::string::npos) t.fail("the output ends without a line end: '%.200s'", o.c_str() + p);
        std::string l = o.substr(p, e - p);
        p = e + 2;
        if (l.empty()) continue;
        if (l == "# New execution started") { v.push_back({true, "", ""}); continue; }
        long n;
        if (sscanf(l.c_str(), "# Decompression Complete after printing %ld log messages", &n) == 1) { if (total) *total = n; continue; }
        size_t a = l.find(' '), b = a == std::string::npos ? a : l.find(' ', a + 1);
        if (b == std::string::npos) t.fail("unexpected output line '%.200s'", l.c_str());
        v.push_back({false, l.substr(0, b), l.substr(b + 1)});
    }
    return v;
}
struct Decoded { bool opened; int64_t rc; std::string out; std::vector<Line> l; long total; };
inline Decoded decode(Tape &t, const std::string &log, bool ordered) {
    MemFile f(log);
    Dec d;
    Decoded r;
    r.rc = -1;
    r.total = -1;
    r.opened = d.d.open(f.path.c_str());
    if (!r.opened) return r;
    Capture c;
    r.rc = ordered ? d.d.decompressTo(c.f) : d.d.decompressUnordered(c.f);
    r.out = c.str();
    r.l = lines(t, r.out, &r.total);
    return r;
}

// ---- a plain way to make a log: one encoder, buffers as large as needed
struct LogMaker {
    std::string log;
    std::vector<char> buf;
    Log::Encoder *e = nullptr;
    std::vector<StaticLogInfo> known;      // persisted so far
    uint32_t pos = 0;
    uint64_t events = 0;
    explicit LogMaker(size_t n = 1 << 16) : buf(n) {}
    ~LogMaker() { delete e; }
    void begin() { delete e; e = new Log::Encoder(buf.data(), buf.size()); known.clear(); known.reserve(256); pos = 0; }
    void flush() {
        char *o; size_t n;
        e->swapBuffer(buf.data(), buf.size(), &o, &n);
        log.append(o, n);
    }
    void dictionary(size_t upto) {
#ifndef PREPROCESSOR_NANOLOG
        while (pos < upto) {
            std::vector<StaticLogInfo> all;
            all.reserve(upto);
            for (size_t i = 0; i < upto; ++i) all.push_back(infoOf(i));
            uint32_t before = pos;
            e->encodeNewDictionaryEntries(pos, all);
            if (pos == before) { if (e->getEncodedBytes() == 0) throw pbt::Failure{"the dictionary entry never fits"}; flush(); }
        }
        for (size_t i = known.size(); i < pos; ++i) known.push_back(infoOf(i));
#endif
    }
    long encode(const char *from, uint64_t n, uint32_t thread, bool newPass) {
#ifdef PREPROCESSOR_NANOLOG
        return e->encodeLogMsgs(const_cast<char *>(from), n, thread, newPass, &events);
#else
        return e->encodeLogMsgs(const_cast<char *>(from), n, thread, newPass, known, &events);
#endif
    }
    // encode everything, flushing whenever needed
    void all(const std::vector<Msg> &v, uint32_t thread, bool newPass) {
        std::vector<char> b;
        for (auto &m : v) b.insert(b.end(), m.bytes.begin(), m.bytes.end());
        size_t o = 0;
        int idle = 0;
        while (o < b.size()) {
            long n = encode(b.data() + o, b.size() - o, thread, newPass);
            if (n <= 0) { if (++idle > 3) throw pbt::Failure{"the encoder never accepts the message"}; flush(); continue; }
            idle = 0;
            o += size_t(n);
            newPass = false;
        }
    }
};
}

// ---- stand-ins for the generated code
namespace GeneratedFunctions {
#ifdef PREPROCESSOR_NANOLOG
size_t numLogIds = 0;
struct LogMetadata logId2Metadata[256];
template <int I> ssize_t cf(NanoLogInternal::Log::UncompressedEntry *re, char *out) {
    char *o = out;
    enc::stmts()[size_t(enc::regs()[I].stmt)].comp(re->argData, &o);
    return o - out;
}
#define ENC_C4(n) cf<n>, cf<n + 1>, cf<n + 2>, cf<n + 3>
#define ENC_C16(n) ENC_C4(n), ENC_C4(n + 4), ENC_C4(n + 8), ENC_C4(n + 12)
ssize_t (*compressFnArray[64])(NanoLogInternal::Log::UncompressedEntry *, char *) = {ENC_C16(0), ENC_C16(16), ENC_C16(32), ENC_C16(48)};
void (*decompressAndPrintFnArray[1])(const char **, FILE *, void (*)(const char *, ...)) = {nullptr};
long int writeDictionary(char *buffer, char *end) {
    static std::vector<char> tmp(1 << 20);
    char *p = tmp.data();
    numLogIds = enc::regs().size();
    for (auto &r : enc::regs()) {
        using namespace NanoLogInternal::Log;
        char *q = p;
        Decoder::createMicroCode(&q, r.fmt.c_str(), r.file.c_str(), r.line, uint8_t(r.sev));
        FormatMetadata fm;
        memcpy(&fm, p, sizeof fm);
        p += sizeof fm + fm.filenameLength;
        for (int i = 0; i < fm.numPrintFragments; ++i) { PrintFragment pf; memcpy(&pf, p, sizeof pf); p += sizeof pf + pf.fragmentLength; }
    }
    if (p - tmp.data() >= end - buffer) return -1;
    memcpy(buffer, tmp.data(), size_t(p - tmp.data()));
    return p - tmp.data();
}
#else
size_t numLogIds = 0;
struct LogMetadata logId2Metadata[1];
ssize_t (*compressFnArray[1])(NanoLogInternal::Log::UncompressedEntry *, char *) = {nullptr};
void (*decompressAndPrintFnArray[1])(const char **, FILE *, void (*)(const char *, ...)) = {nullptr};
long int writeDictionary(char *, char *) { return 0; }
#endif
}
#endif
