// P15: the iteration API. Every message's identity, time and arguments are compared with what was encoded, and the text printed
// while iterating with plain decompression. One Decoder (and LogMessage) may be used for several files.
#include "enc.h"
using namespace enc;

struct FileX { std::string log; std::vector<Msg> m; std::vector<std::string> fmt; std::vector<std::string> text; };

// Conversions of a format string, dynamic width and precision left out: kind and size of each
static std::vector<std::pair<char, int>> convs(const std::string &f) {
    std::vector<std::pair<char, int>> v;
    for (size_t i = 0; i < f.size(); ++i) {
        if (f[i] != '%') continue;
        ++i;
        if (f[i] == '%') continue;
        while (strchr("-+ #0123456789.*'", f[i])) ++i;
        int size = 4;
        if (f.compare(i, 2, "hh") == 0) { size = 1; i += 2; }
        else if (f.compare(i, 2, "ll") == 0) { size = 8; i += 2; }
        else if (f[i] == 'h') { size = 2; ++i; }
        else if (strchr("ljzt", f[i])) { size = 8; ++i; }
        else if (f[i] == 'L') { size = 16; ++i; }
        char c = f[i];
        if (strchr("diouxX", c)) v.push_back({'i', size});
        else if (c == 'c') v.push_back({'i', 1});
        else if (c == 'p') v.push_back({'i', 8});
        else if (c == 's') v.push_back({size == 8 ? 'w' : 's', 0});
        else v.push_back({size == 16 ? 'L' : 'f', 8});
    }
    return v;
}

static FileX makeFile(Tape &t) {
    FileX r;
    LogMaker lm(t.chance(30) ? 4000 : 1 << 15);
    int execs = t.chance(30) ? 2 + int(t.draw(2)) : 1;
    uint64_t clock = t.bits() >> 8;
    for (int x = 0; x < execs; ++x) {
        genRegs(t, 1 + int(t.draw(6)));
        lm.begin();
        size_t known = 0;
        int steps = int(t.draw(7));
        bool wrap = false;
        for (int k = 0; k < steps; ++k) {
            if (known < regs().size() && (known == 0 || t.chance(50))) {
                known = t.chance(50) ? regs().size() : known + 1 + t.draw(regs().size() - known);
                lm.dictionary(known);
            }
            if (t.chance(20)) lm.flush();
            int n = int(t.draw(7));
            std::vector<Msg> v;
            uint32_t th = 1 + uint32_t(t.draw(4));
            for (int i = 0; i < n; ++i) {
                if (t.chance(10)) clock = t.bits(); else clock += t.draw(1000);
                Msg m = genMsg(t, uint32_t(t.draw(known)), clock, 200);
                m.thread = th;
                v.push_back(m);
                r.m.push_back(m);
                r.fmt.push_back(regs()[m.reg].fmt);
                r.text.push_back(expect(m));
            }
            lm.all(v, th, wrap);
            wrap = t.chance(40);
        }
        lm.flush();
    }
    r.log = lm.log;
    return r;
}

static void checkMsg(Tape &t, Log::LogMessage &lm, const FileX &f, size_t i) {
    const Msg &m = f.m[i];
    const char *fmt = f.fmt[i].c_str();
    if (!lm.valid()) t.fail("message %zu (\"%s\") is returned as invalid", i, fmt);
    if (lm.getLogId() != m.reg) t.fail("message %zu (\"%s\"): statement id %u instead of %u", i, fmt, lm.getLogId(), m.reg);
    if (lm.getTimestamp() != m.ts) t.fail("message %zu (\"%s\"): time stamp %llu instead of %llu", i, fmt, (unsigned long long)lm.getTimestamp(), (unsigned long long)m.ts);
    auto cv = convs(f.fmt[i]);
    if (cv.size() != m.args.size()) t.fail("harness: \"%s\" has %zu conversions, %zu values", fmt, cv.size(), m.args.size());
    if (size_t(lm.getNumArgs()) != cv.size()) t.fail("message %zu (\"%s\"): %d arguments instead of %zu", i, fmt, lm.getNumArgs(), cv.size());
    for (size_t a = 0; a < cv.size(); ++a) {
        const Arg &w = m.args[a];
        ++t.extra[1];
        int n = int(a);
        switch (cv[a].first) {
            case 'i': {
                int size = std::min(cv[a].second, w.size);
                uint64_t got = size == 1 ? lm.get<uint8_t>(n) : size == 2 ? lm.get<uint16_t>(n) : size == 4 ? lm.get<uint32_t>(n) : lm.get<uint64_t>(n);
                uint64_t want = size == 8 ? w.bits : w.bits & ((1ULL << (8 * size)) - 1);
                if (got != want) t.fail("message %zu (\"%s\"): argument %d is %llx instead of %llx", i, fmt, n, (unsigned long long)got, (unsigned long long)want);
                break;
            }
            case 'f': {
                double d = lm.get<double>(n);
                uint64_t b; memcpy(&b, &d, 8);
                if (b != w.bits) t.fail("message %zu (\"%s\"): argument %d is %g instead of %g", i, fmt, n, d, *(const double *)&w.bits);
                break;
            }
            case 's': {
                const char *s = lm.get<const char *>(n);
                if (strlen(s) != w.s.size() || w.s != s) t.fail("message %zu (\"%s\"): argument %d is \"%.100s\" instead of \"%.100s\"", i, fmt, n, s, w.s.c_str());
                break;
            }
            case 'w': {
                const wchar_t *s = lm.get<const wchar_t *>(n);
                if (w.w != s) t.fail("message %zu (\"%s\"): argument %d is \"%.100ls\" instead of \"%.100ls\"", i, fmt, n, s, w.w.c_str());
                break;
            }
        }
    }
}

static void prop(Tape &t) {
    int files = t.chance(35) ? 2 + int(t.draw(2)) : 1;
    Dec dec;
    Log::LogMessage lm;
    size_t total = 0;
    for (int k = 0; k < files; ++k) {
        if (k && t.chance(15)) {        // a file that cannot be opened in between
            if (dec.d.open("/proc/self/fd/9999/none")) t.fail("a file that does not exist can be opened");
            if (dec.d.getNextLogStatement(lm)) t.fail("iteration returns a message after a failed open");
            if (lm.valid()) t.fail("the message after a failed open is valid");
        }
        FileX f = makeFile(t);
        total += f.m.size();
        t.key += f.log;
        t.note("file %d: %zu bytes, %zu messages\n", k, f.log.size(), f.m.size());
        MemFile mf(f.log);
        if (!dec.d.open(mf.path.c_str())) t.fail("the log cannot be opened");
        bool print = t.chance(60);
        size_t upto = t.chance(60) ? f.m.size() + 1 : size_t(t.draw(f.m.size() + 1));
        Capture c;
        bool ended = false;
        for (size_t i = 0; i < upto; ++i) {
            bool r = dec.d.getNextLogStatement(lm, print ? c.f : nullptr);
            ++t.extra[0];
            if (i < f.m.size()) {
                if (!r) t.fail("file %d: iteration ends after %zu of %zu messages", k, i, f.m.size());
                checkMsg(t, lm, f, i);
            } else {
                if (r) t.fail("file %d: iteration returns a message after the last one", k);
                if (lm.valid()) t.fail("file %d: the message at the end of the iteration is valid", k);
                ended = true;
            }
        }
        if (ended) {
            for (int i = int(t.draw(3)); i > 0; --i) {
                if (dec.d.getNextLogStatement(lm)) t.fail("iteration goes on after its end");
                if (lm.valid()) t.fail("the message after the end of the iteration is valid");
            }
            Decoded d = decode(t, f.log, false);
            if (print) {
                std::string o = c.str(), p = d.out;
                size_t e = p.find("\r\n\r\n# Decompression Complete");
                if (e == std::string::npos) t.fail("plain decompression ends without its closing line");
                if (p.substr(0, e) != o) t.fail("the text printed while iterating differs from plain decompression:\n%.1500s\n--- plain:\n%.1500s", o.c_str(), p.substr(0, e).c_str());
            }
            std::vector<std::string> plain;
            for (auto &l : d.l) if (!l.marker) plain.push_back(l.rest);
            if (plain != f.text) t.fail("plain decompression prints other messages than were logged (%zu, %zu)", plain.size(), f.text.size());
        }
    }
    t.nontrivial = total >= 2;
    if (files > 1) ++t.extra[2];
}

int main(int argc, char **argv) { return pbt::run(argc, argv, "p15", prop); }
