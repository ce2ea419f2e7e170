// P19: format strings. Generated strings over the printf grammar and near misses of it; an independent grammar (cross-checked with
// glibc's parse_printf_format) says which arguments they take. Compared: the compile-time analysis, run on each string, and - for
// valid formats - what the decompressor makes of a message logged with it.
#include "enc.h"
#include <printf.h>
#include <wchar.h>
using namespace enc;

struct P { char kind; char conv; std::string len; int prec; };     // kind: w width, p precision, i l f L s S v; prec: of strings (-1 none, -2 dynamic)
struct Parsed { bool ok = true; bool skip = false; std::vector<P> p; };

static Parsed grammar(const std::string &f) {
    Parsed r;
    size_t i = 0, n = f.size();
    while (i < n) {
        if (f[i] != '%') { ++i; continue; }
        ++i;
        if (i < n && f[i] == '%') { ++i; continue; }
        while (i < n && strchr("-+ #0", f[i])) ++i;
        size_t digits = 0;
        if (i < n && f[i] == '*') { r.p.push_back({'w', '*', "", -1}); ++i; }
        else while (i < n && isdigit((unsigned char)f[i])) { ++i; ++digits; }
        int prec = -1;
        if (i < n && f[i] == '.') {
            ++i;
            if (i < n && f[i] == '*') { r.p.push_back({'p', '*', "", -1}); prec = -2; ++i; }
            else {
                prec = 0;
                size_t d = 0;
                while (i < n && isdigit((unsigned char)f[i])) { if (++d < 9) prec = prec * 10 + (f[i] - '0'); ++i; }
                if (d > digits) digits = d;
            }
        }
        if (digits > 8) r.skip = true;
        static const char *lens[] = {"hh", "ll", "h", "l", "j", "z", "t", "L"};
        std::string len;
        for (auto l : lens) if (f.compare(i, strlen(l), l) == 0) { len = l; i += strlen(l); break; }
        if (i >= n) { r.ok = false; return r; }
        char c = f[i++];
        P p{0, c, len, -1};
        if (strchr("diuoxX", c) && len != "L") p.kind = (len == "" || len[0] == 'h') ? 'i' : 'l';
        else if (strchr("fFeEgGaA", c) && (len == "" || len == "l" || len == "L")) p.kind = len == "L" ? 'L' : 'f';
        else if (c == 's' && (len == "" || len == "l")) { p.kind = len == "" ? 's' : 'S'; p.prec = prec; }
        else if (c == 'c' && (len == "" || len == "l")) p.kind = 'i';
        else if (c == 'p' && len == "") p.kind = 'v';
        else { r.ok = false; return r; }
        r.p.push_back(p);
    }
    return r;
}
static void crossCheck(const std::string &f, const Parsed &g) {
    int ty[64];
    size_t n = parse_printf_format(f.c_str(), 64, ty);
    bool ok = n == g.p.size();
    for (size_t i = 0; ok && i < n; ++i) {
        int base = ty[i] & ~PA_FLAG_MASK;
        char k = g.p[i].kind;
        ok = k == 'w' || k == 'p' ? ty[i] == PA_INT : k == 's' ? base == PA_STRING : k == 'S' ? base == PA_WSTRING || base == PA_STRING : k == 'v' ? base == PA_POINTER : k == 'L' ? ty[i] == (PA_DOUBLE | PA_FLAG_LONG_DOUBLE)
            : k == 'f' ? base == PA_DOUBLE : g.p[i].conv == 'c' ? (base == PA_CHAR || base == PA_WCHAR) : k == 'i' ? (base == PA_INT || base == PA_CHAR) && !(ty[i] & PA_FLAG_LONG) : base == PA_INT && (ty[i] & (PA_FLAG_LONG | PA_FLAG_LONG_LONG));
    }
    if (!ok) { fprintf(stderr, "HARNESS: the grammar and parse_printf_format disagree on '%s': %zu and %zu arguments\n", f.c_str(), g.p.size(), n); abort(); }
}

// ---- the compile-time analysis, for strings of any length up to MAXN
constexpr int MAXN = 100;
struct Analysis { bool threw = false; int count = 0, nibbles = 0; std::vector<int> t; };
template <int N> void analyze(const char *s, Analysis &a) {
    const char (&f)[N] = *reinterpret_cast<const char (*)[N]>(s);
    try {
        a.count = countFmtParams(f);
        a.nibbles = getNumNibblesNeeded(f);
        for (int i = 0; i < a.count; ++i) a.t.push_back(int(getParamInfo(f, i)));
    } catch (const std::invalid_argument &) { a.threw = true; }
}
typedef void (*AnalyzeFn)(const char *, Analysis &);
template <size_t... I> constexpr std::array<AnalyzeFn, sizeof...(I)> table(std::index_sequence<I...>) { return {{analyze<int(I) + 1>...}}; }
static Analysis analyze(const std::string &f) {
    static constexpr auto t = table(std::make_index_sequence<MAXN>{});
    Analysis a;
    std::unique_ptr<char[]> b(new char[f.size() + 1]);
    memcpy(b.get(), f.c_str(), f.size() + 1);
    t[f.size()](b.get(), a);
    return a;
}

// ---- messages with run-time formats
struct Val { char kind; int i; long l; double d; long double L; const char *s; const wchar_t *w; void *v; };
struct Dyn { std::string fmt; int np, nn; std::vector<ParamType> pt; StaticLogInfo (*info)(const Reg &, const Dyn &) = nullptr; std::vector<Val> vals; };
static std::vector<Dyn> dyns;
template <typename... Ts> StaticLogInfo infoFor(const Reg &r, const Dyn &d) {
    return StaticLogInfo(&compress<Ts...>, r.file.c_str(), r.line, uint8_t(r.sev), d.fmt.c_str(), d.np, d.nn, d.pt.data());
}
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
#pragma GCC diagnostic ignored "-Wformat-security"
template <typename... Ts> void leaf(Dyn &d, Msg &m, Ts... args) {
    constexpr size_t n = sizeof...(Ts);
    std::array<ParamType, n> pt;
    for (size_t i = 0; i < n; ++i) pt[i] = d.pt[i];
    uint64_t pp = uint64_t(-1);
    size_t sizes[n + 1] = {};
    size_t sz = getArgSizes(pt, pp, sizes, args...) + sizeof(Log::UncompressedEntry);
    m.bytes.assign(sz, 0);
    char *w = m.bytes.data() + sizeof(Log::UncompressedEntry);
    store_arguments(pt, sizes, &w, args...);
    Log::UncompressedEntry ue;
    ue.fmtId = m.reg; ue.entrySize = uint32_t(sz); ue.timestamp = m.ts;
    memcpy(m.bytes.data(), &ue, sizeof ue);
    int len = snprintf(nullptr, 0, d.fmt.c_str(), args...);
    if (len < 0) throw pbt::Discard{};
    m.text.assign(size_t(len) + 1, 0);
    snprintf(&m.text[0], size_t(len) + 1, d.fmt.c_str(), args...);
    m.text.resize(size_t(len));
    d.info = &infoFor<Ts...>;
}
constexpr size_t MAXARGS = 3;
template <typename... Ts> void go(Dyn &d, Msg &m, Ts... args) {
    constexpr size_t n = sizeof...(Ts);
    if (n == d.vals.size()) { leaf(d, m, args...); return; }
    if constexpr (n < MAXARGS) {
        const Val &v = d.vals[n];
        switch (v.kind) {
            case 'i': go(d, m, args..., v.i); break;
            case 'l': go(d, m, args..., v.l); break;
            case 'f': go(d, m, args..., v.d); break;
            case 'L': go(d, m, args..., v.L); break;
            case 's': go(d, m, args..., v.s); break;
            case 'S': go(d, m, args..., v.w); break;
            default: go(d, m, args..., (const void *)v.v); break;
        }
    }
}

static const char LITS[] = "abz AZ_09.,;:!?-+*/#'(){}[]<>=&^~@$|\\\"\t\n\xc3\xa9lhdsnx";
static std::string lit(Tape &t) {
    std::string s;
    size_t n = t.draw(5);
    while (n--) { if (t.chance(15)) s += "%%"; else s += LITS[t.draw(sizeof LITS - 1)]; }
    return s;
}
static std::string spec(Tape &t) {
    std::string s = "%";
    size_t n = t.chance(40) ? 1 + t.draw(t.chance(20) ? 9 : 3) : 0;
    while (n--) s += "-+ #0"[t.draw(5)];
    if (t.chance(18)) s += '*';
    else if (t.chance(25)) s += std::to_string(1 + t.draw(t.chance(20) ? (t.chance(20) ? 12000 : 400) : 30));
    if (t.chance(35)) { s += '.'; if (t.chance(30)) s += '*'; else if (t.chance(70)) s += std::to_string(t.draw(t.chance(20) ? (t.chance(20) ? 3000 : 150) : 12)); }
    static const char *il[] = {"", "", "", "hh", "h", "l", "ll", "j", "z", "t"};
    static const char *fl[] = {"", "", "l", "L"};
    uint64_t k = t.draw(100);
    if (k < 45) { s += t.pick(il); s += "diuoxX"[t.draw(6)]; }
    else if (k < 65) { s += t.pick(fl); s += "fFeEgGaA"[t.draw(8)]; }
    else if (k < 90) { if (t.chance(20)) s += 'l'; s += 's'; }
    else if (k < 96) { if (t.chance(20)) s += 'l'; s += 'c'; }
    else s += 'p';
    return s;
}
static std::string format(Tape &t, int specs) {
    std::string f = lit(t);
    for (int i = 0; i < specs; ++i) { f += spec(t); f += lit(t); }
    return f;
}
static std::string nearMiss(Tape &t, std::string f) {
    static const char A[] = "%%%***...-+ #0123456789hlLjztqZIncdsfxpuSCmgGeoaAiX$'bBwkyvr";
    int n = 1 + int(t.draw(3));
    while (n--) {
        size_t p = t.draw(f.size() + 1);
        char c = A[t.draw(sizeof A - 1)];
        switch (t.draw(4)) {
            case 0: f.insert(p, 1, c); break;
            case 1: if (p < f.size()) f.erase(p, 1); break;
            case 2: if (p < f.size()) f[p] = c; break;
            default: f.insert(p, std::string("%") + c); break;
        }
    }
    return f;
}
static std::string show(const std::string &f) { std::string o; char b[8]; for (unsigned char c : f) if (c < 32 || c > 126) { snprintf(b, 8, "\\%03o", c); o += b; } else o += char(c); return o; }

static void checkAnalysis(Tape &t, const std::string &f, const Parsed &g) {
    Analysis a = analyze(f);
    std::string s = show(f);
    if (!g.ok) {
        if (!a.threw) t.fail("the unsupported format '%s' is accepted at compile time, with %d arguments", s.c_str(), a.count);
        return;
    }
    if (a.threw) t.fail("the format '%s' is rejected at compile time", s.c_str());
    if (size_t(a.count) != g.p.size()) t.fail("the format '%s' takes %zu arguments, the analysis says %d", s.c_str(), g.p.size(), a.count);
    int nib = 0;
    for (size_t i = 0; i < g.p.size(); ++i) {
        const P &p = g.p[i];
        bool str = p.kind == 's' || p.kind == 'S';
        if (!str) ++nib;
        int w = p.kind == 'w' ? DYNAMIC_WIDTH : p.kind == 'p' ? DYNAMIC_PRECISION : !str ? NON_STRING : p.prec == -1 ? STRING_WITH_NO_PRECISION : p.prec == -2 ? STRING_WITH_DYNAMIC_PRECISION : p.prec;
        if (a.t[i] != w) t.fail("the format '%s': argument %zu is of kind %d, the analysis says %d", s.c_str(), i, w, a.t[i]);
    }
    if (a.nibbles != nib) t.fail("the format '%s' has %d arguments that are not strings, the analysis says %d", s.c_str(), nib, a.nibbles);
}

static void prop(Tape &t) {
    // structure
    size_t nonTrivial = 0;
    uint64_t key = 7;
    auto mix = [&](const std::string &f) { for (unsigned char c : f) key = (key ^ c) * 0x100000001b3ull; };
    int n = 1 + int(t.draw(12));
    for (int i = 0; i < n; ++i) {
        std::string f = format(t, int(t.draw(t.chance(10) ? 14 : 4)));
        if (t.chance(50)) f = nearMiss(t, f);
        if (f.size() >= MAXN || memchr(f.data(), 0, f.size())) continue;
        Parsed g = grammar(f);
        if (g.skip) continue;
        if (g.ok) crossCheck(f, g);
        checkAnalysis(t, f, g);
        ++t.extra[g.ok ? 0 : 1];
        t.note("%s format '%s'\n", g.ok ? "valid" : "unsupported", show(f).c_str());
        if (!g.ok || !g.p.empty()) ++nonTrivial;
        mix(f);
    }
    // decoding
    dyns.clear();
    dyns.reserve(16);
    int k = int(t.draw(5));
    std::vector<Msg> ms;
    Gen gen(t, 60);
    std::vector<std::string> texts;
    auto &rs = regs();
    auto &st = stmts();
    static const size_t fixed = st.size();
    st.resize(fixed);
    rs.clear();
    for (int i = 0; i < k; ++i) {
        std::string f = format(t, int(t.draw(4)));
        Parsed g = grammar(f);
        if (!g.ok || g.skip || g.p.size() > MAXARGS || f.size() >= MAXN) continue;
        Analysis a = analyze(f);
        if (a.threw || size_t(a.count) != g.p.size()) t.fail("the analysis of '%s' is wrong", show(f).c_str());
        dyns.emplace_back();
        Dyn &d = dyns.back();
        d.fmt = f;
        d.np = a.count;
        d.nn = a.nibbles;
        for (int x : a.t) d.pt.push_back(ParamType(x));
        d.pt.push_back(ParamType::INVALID);
        for (auto &p : g.p) {
            Val v{};
            v.kind = p.kind == 'w' || p.kind == 'p' ? 'i' : p.kind;
            uint64_t b = t.bits();
            if (p.kind == 'w') v.i = int(t.range(-30, 30));
            else if (p.kind == 'p') v.i = int(t.range(-1, 20));
            else if (p.conv == 'c') v.i = int(33 + b % 90);
            else if (p.kind == 'i') {
                bool sg = p.conv == 'd' || p.conv == 'i';
                v.i = p.len == "hh" ? (sg ? int((signed char)b) : int((unsigned char)b)) : p.len == "h" ? (sg ? int(short(b)) : int((unsigned short)b)) : sg ? int(b) : int(b & 0x7fffffff);
            }
            v.l = p.conv == 'd' || p.conv == 'i' ? long(b) : long(b >> 1);
            v.d = gen.d();
            v.L = v.d;
            v.s = gen.str(60);
            v.w = gen.wstr(30);
            v.v = (void *)b;
            d.vals.push_back(v);
        }
        Stmt s;
        size_t di = dyns.size() - 1;
        s.info = [di](const Reg &r) { return dyns[di].info(r, dyns[di]); };
        s.comp = nullptr;
        s.fmt = d.fmt.c_str();
        s.ld = false;
        st.push_back(s);
        Reg r;
        r.stmt = int(st.size() - 1);
        r.file = "f.cc";
        r.line = uint32_t(di + 1);
        r.sev = 1 + int(t.draw(4));
        r.fmt = f;
        rs.push_back(r);
        Msg m;
        m.reg = uint32_t(di);
        m.ts = 1000 + di;
        m.thread = 1;
        go(d, m);
        ms.push_back(m);
        mix(f);
        ++t.extra[2];
        t.extra[3] += g.p.size();
        t.note("message of format '%s': '%s'\n", show(f).c_str(), show(m.text).c_str());
    }
    if (!ms.empty()) {
        LogMaker lm;
        lm.begin();
        lm.dictionary(rs.size());
        std::vector<Msg> order;
        for (int x = 0; x < 2; ++x) for (auto &m : ms) order.push_back(m);
        lm.all(order, 1, false);
        lm.flush();
        MemFile f(lm.log);
        Dec d;
        if (!d.d.open(f.path.c_str())) t.fail("the log does not open");
        // one message at a time: the texts may contain line ends
        Log::LogMessage msg;
        for (size_t i = 0; i < order.size(); ++i) {
            Capture c;
            if (!d.d.getNextLogStatement(msg, c.f)) t.fail("message %zu of '%s' is missing", i, show(regs()[order[i].reg].fmt).c_str());
            std::string o = c.str(), w = expect(order[i]) + "\r\n";
            size_t p = o.find(' ');
            if (p != std::string::npos) p = o.find(' ', p + 1);
            if (p == std::string::npos || o.compare(p + 1, std::string::npos, w) != 0)
                t.fail("the message of format '%s' is decoded as '%s' instead of '%s'", show(regs()[order[i].reg].fmt).c_str(), show(p == std::string::npos ? o : o.substr(p + 1)).c_str(), show(w).c_str());
            size_t na = 0;
            for (auto &x : grammar(regs()[order[i].reg].fmt).p) na += x.kind != 'w' && x.kind != 'p';
            if (size_t(msg.getNumArgs()) != na) t.fail("the message of format '%s' has %d arguments instead of %zu", show(regs()[order[i].reg].fmt).c_str(), msg.getNumArgs(), na);
        }
    }
    t.nontrivial = nonTrivial > 0 || !ms.empty();
    t.key = std::to_string(key);
}
int main(int argc, char **argv) { return pbt::run(argc, argv, "fmt", prop); }
