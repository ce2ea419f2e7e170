// P11: logs cut off at any byte. A generated log (several threads, extents, dictionaries and executions) is decoded after
// truncation at every byte (or a sample of the bytes of a longer log), in every decoding mode.
#include "enc.h"
#include <map>
#include <set>
using namespace enc;

struct Extent { size_t end; int exec; std::vector<const Msg *> m; };

static void prop(Tape &t) {
    int nregs = 1 + int(t.draw(4));
    LogMaker lm(t.chance(30) ? 2500 : 1 << 14);
    std::vector<std::unique_ptr<Msg>> store;
    std::vector<Extent> ext;
    std::vector<size_t> execStart;
    std::map<const Msg *, std::string> text;
    int execs = t.chance(35) ? 2 + int(t.draw(2)) : 1;
    uint64_t clock = 1000;
    for (int x = 0; x < execs; ++x) {
        genRegs(t, nregs);
        execStart.push_back(lm.log.size());
        lm.begin();
        size_t known = 0;
        int steps = 1 + int(t.draw(8));
        bool wrap = false;
        auto at = [&] { return lm.log.size() + lm.e->getEncodedBytes(); };
        for (int k = 0; k < steps; ++k) {
            if (known < regs().size() && (known == 0 || t.chance(50))) {
                known = t.chance(50) ? regs().size() : known + 1 + t.draw(regs().size() - known);
                lm.dictionary(known);
            }
            if (t.chance(20)) lm.flush();
            int n = int(t.draw(6));
            std::vector<char> b;
            std::vector<const Msg *> ms;
            uint32_t th = t.chance(10) ? uint32_t(t.bits()) : 1 + uint32_t(t.draw(3));
            for (int i = 0; i < n; ++i) {
                clock += 1 + t.draw(1000);
                Msg m = genMsg(t, uint32_t(t.draw(known)), clock, 60);
                m.thread = th;
                store.emplace_back(new Msg(m));
                text[store.back().get()] = expect(m);
                ms.push_back(store.back().get());
                b.insert(b.end(), m.bytes.begin(), m.bytes.end());
            }
            size_t o = 0, i = 0;
            int idle = 0;
            while (o < b.size()) {
                long r = lm.encode(b.data() + o, b.size() - o, th, wrap);
                if (r <= 0) { if (++idle > 3) t.fail("the encoder never accepts the message"); lm.flush(); continue; }
                idle = 0;
                wrap = false;
                o += size_t(r);
                Extent e;
                e.end = at();
                e.exec = x;
                for (size_t left = size_t(r); left; ++i) { left -= ms[i]->bytes.size(); e.m.push_back(ms[i]); }
                ext.push_back(e);
            }
            if (t.chance(40)) wrap = true;
        }
        lm.flush();
    }
    const std::string &log = lm.log;
    std::vector<size_t> cuts;
    // decoding a C++17 log compiles a regular expression per dictionary entry, so it gets fewer cuts
#ifdef PREPROCESSOR_NANOLOG
    const size_t all = 700, some = 120;
#else
    const size_t all = 300, some = 40;
#endif
    if (log.size() <= all) for (size_t k = 0; k <= log.size(); ++k) cuts.push_back(k);
    else {
        for (int k = 0; size_t(k) < some; ++k) cuts.push_back(size_t(t.draw(log.size() + 1)));
        for (auto &e : ext) for (int d = -12; d <= 12; ++d) if (long(e.end) + d >= 0 && e.end + size_t(d) <= log.size() && cuts.size() < some * 4) cuts.push_back(e.end + size_t(d));
        for (auto s : execStart) for (int d = 0; d <= 40; d += 3) if (s + size_t(d) <= log.size()) cuts.push_back(s + size_t(d));
    }
    t.nontrivial = store.size() >= 2 && ext.size() >= 2;
    t.key = log;
    t.note("%d executions, %zu extents, %zu messages, %zu bytes, %zu cuts\n", execs, ext.size(), store.size(), log.size(), cuts.size());
    for (auto &e : ext) t.note("extent up to byte %zu: %zu messages of thread %u, execution %d\n", e.end, e.m.size(), e.m[0]->thread, e.exec);
    int mode0 = int(t.draw(3));
    for (size_t ci = 0; ci < cuts.size(); ++ci) {
        size_t cut = cuts[ci];
        int mode = int((ci + size_t(mode0)) % 3);
        static const char *names[] = {"unordered decompression", "ordered decompression", "iteration"};
        MemFile f(log.substr(0, cut));
        Dec d;
        ++t.extra[0];
        bool opened = d.d.open(f.path.c_str());
        std::string out;
        if (opened) {
            Capture c;
            if (mode == 0) d.d.decompressUnordered(c.f);
            else if (mode == 1) d.d.decompressTo(c.f);
            else {
                Log::LogMessage m;
                size_t n = 0;
                while (d.d.getNextLogStatement(m, c.f)) if (++n > store.size()) t.fail("cut at %zu of %zu: iteration returns more messages than there are", cut, log.size());
            }
            out = c.str();
        }
        // what the output may and must hold
        std::vector<std::vector<std::string>> must, may;
        must.resize(size_t(execs));
        may.resize(size_t(execs));
        for (size_t i = 0; i < ext.size(); ++i) {
            auto &e = ext[i];
            size_t start = i && ext[i - 1].exec == e.exec ? ext[i - 1].end : execStart[size_t(e.exec)];
            if (e.end <= cut) for (auto *m : e.m) must[size_t(e.exec)].push_back(text[m]);
            else if (start < cut) for (auto *m : e.m) may[size_t(e.exec)].push_back(text[m]);
        }
        size_t complete = 0;
        for (auto &m : must) complete += m.size();
        if (complete) ++t.extra[1];
        if (!opened) {
            if (complete) t.fail("cut at %zu of %zu: the log cannot be opened although %zu messages lie before the cut", cut, log.size(), complete);
            continue;
        }
        // the tail of an output that breaks off in the middle of a line
        long total;
        std::vector<Line> l = lines(t, out, &total);
        std::vector<std::vector<std::string>> got(1);
        size_t printed = 0;
        for (auto &x : l) { if (x.marker) got.emplace_back(); else { got.back().push_back(x.rest); ++printed; } }
        if (got.size() > size_t(execs)) t.fail("cut at %zu: more executions than there were", cut);
        got.resize(size_t(execs));
        if (total >= 0 && size_t(total) != printed) t.fail("cut at %zu of %zu: %s reports %ld messages and prints %zu", cut, log.size(), names[mode], total, printed);
        for (int x = 0; x < execs; ++x) {
            auto &g = got[size_t(x)];
            auto &mu = must[size_t(x)];
            auto &ma = may[size_t(x)];
            if (mode != 1) {            // file order, then at most a prefix of the extent that is cut
                for (size_t i = 0; i < std::max(g.size(), mu.size()); ++i) {
                    const char *w = i < mu.size() ? mu[i].c_str() : i - mu.size() < ma.size() ? ma[i - mu.size()].c_str() : nullptr;
                    if (i >= g.size()) t.fail("cut at %zu of %zu: %s prints %zu of the %zu messages of execution %d before the cut; missing:\n  %.300s", cut, log.size(), names[mode], g.size(), mu.size(), x, w);
                    if (!w) t.fail("cut at %zu of %zu: %s prints a message that was not logged there:\n  %.300s", cut, log.size(), names[mode], g[i].c_str());
                    if (g[i] != w) t.fail("cut at %zu of %zu: %s prints\n  %.300s\ninstead of\n  %.300s", cut, log.size(), names[mode], g[i].c_str(), w);
                }
            } else {
                std::multiset<std::string> gs(g.begin(), g.end());
                for (auto &w : mu) { auto it = gs.find(w); if (it == gs.end()) t.fail("cut at %zu of %zu: ordered decompression does not print a message of execution %d before the cut:\n  %.300s", cut, log.size(), x, w.c_str()); gs.erase(it); }
                for (auto &w : ma) { auto it = gs.find(w); if (it != gs.end()) gs.erase(it); }
                if (!gs.empty()) t.fail("cut at %zu of %zu: ordered decompression prints a message that was not logged:\n  %.300s", cut, log.size(), gs.begin()->c_str());
            }
        }
    }
}

int main(int argc, char **argv) { return pbt::run(argc, argv, "p11", prop); }
