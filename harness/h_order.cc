// P09: ordered decompression. The output thread's scan is simulated over per-thread queues that receive messages at any moment;
// the resulting log is decoded in both orders.
#include "enc.h"
using namespace enc;

struct TQ {
    uint32_t id;
    std::vector<Msg> m;             // everything logged
    std::vector<int> gen;           // wrap generation of each message
    size_t done = 0;                // consumed
    size_t pos = 0;                 // ring position of the producer
    int g = 0;
    bool dead = false;
};

struct Sim {
    Tape &t;
    size_t ring;                    // bytes of a staging buffer
    std::vector<std::unique_ptr<TQ>> live;
    std::vector<std::unique_ptr<TQ>> gone;
    uint64_t clock;
    uint32_t nextId = 1;
    size_t total = 0, maxTotal;
    unsigned rate;
    uint64_t step;
    std::vector<const Msg *> order; // all messages in logging (time) order
    std::vector<std::unique_ptr<Msg>> store;
    Sim(Tape &t) : t(t) {}

    void newThread() {
        live.emplace_back(new TQ);
        live.back()->id = nextId++;
    }
    bool logOne(TQ &q) {
        if (q.dead || total >= maxTotal) return false;
        clock += 1 + t.draw(step);
        uint32_t reg = uint32_t(t.draw(regs().size()));
        Msg m = genMsg(t, reg, clock, 40);
        m.thread = q.id;
        size_t used = 0;
        for (size_t i = q.done; i < q.m.size(); ++i) used += q.m[i].bytes.size();
        // two generations at most may be outstanding, as in a ring
        int g = q.g; size_t pos = q.pos;
        if (pos + m.bytes.size() >= ring) { g++; pos = 0; }
        if (q.done < q.m.size() && q.gen[q.done] < g - 1) return false;
        if (q.done < q.m.size() && q.gen[q.done] == g - 1) {
            size_t consumed = 0;        // ring position of the consumer within its generation
            for (size_t i = 0; i < q.done; ++i) if (q.gen[i] == g - 1) consumed += q.m[i].bytes.size();
            if (pos + m.bytes.size() >= consumed) return false;
        }
        q.g = g; q.pos = pos + m.bytes.size();
        q.m.push_back(m);
        q.gen.push_back(g);
        store.emplace_back(new Msg(m));
        order.push_back(store.back().get());
        ++total;
        return true;
    }
    void burst() {                  // whatever happens between two steps of the output thread
        while (t.chance(rate) && total < maxTotal) {
            if (live.empty() || t.chance(3)) { if (live.size() < 8) { newThread(); continue; } }
            TQ &q = *live[t.draw(live.size())];
            if (t.chance(2)) { q.dead = true; continue; }
            int n = t.chance(10) ? 1 + int(t.draw(12)) : 1;
            for (int i = 0; i < n; ++i) logOne(q);
        }
    }
};

static void execution(Tape &t, Sim &s, LogMaker &lm, int &passes) {
    static const size_t rings[] = {16000, 300, 500, 1000, 2000};
    s.ring = t.pick(rings);
    s.clock = 1000 + t.draw(100000);
    s.rate = unsigned(t.range(20, 85));
    static const uint64_t steps[] = {1, 50, 1000000, 1500000000};
    s.step = t.pick(steps);
    s.maxTotal = 1 + t.draw(t.chance(20) ? 600 : 60);
    int nt = 1 + int(t.draw(5));
    for (int i = 0; i < nt; ++i) s.newThread();
    size_t threshold = s.ring / 2;
    lm.begin();
#ifndef PREPROCESSOR_NANOLOG
    lm.dictionary(regs().size());
#endif
    lm.flush();
    size_t last = 0;
    bool wrap = false, full = false;
    passes = 0;
    uint64_t flushes = 0, cuts = 0, extents = 0;
    // iterations of the output thread's loop
    while (true) {
        bool stop = s.total >= s.maxTotal || passes > 400;
        if (!stop) s.burst();
        uint64_t consumed = 0;
        size_t i = last;
        while (!full && !s.live.empty()) {
            TQ &q = *s.live[i];
            size_t peekEnd = q.done;
            while (peekEnd < q.m.size() && q.gen[peekEnd] == q.gen[q.done]) ++peekEnd;
            if (peekEnd > q.done) {
                if (peekEnd < q.m.size()) ++cuts;
                std::vector<char> b;
                for (size_t k = q.done; k < peekEnd; ++k) b.insert(b.end(), q.m[k].bytes.begin(), q.m[k].bytes.end());
                size_t n = b.size();
                b.resize(n + 64);
                size_t off = 0;
                while (off < n) {
                    if (!stop) s.burst();
                    size_t c = std::min(threshold, n - off);
                    // a chunk never cuts the message it starts with
                    Log::UncompressedEntry ue;
                    memcpy(&ue, b.data() + off, sizeof ue);
                    if (ue.entrySize > c) c = ue.entrySize;
                    long r = lm.encode(b.data() + off, c, q.id, wrap);
                    if (r == 0) { last = i; full = true; break; }
                    ++extents;
                    wrap = false;
                    off += size_t(r);
                    consumed += size_t(r);
                    size_t left = size_t(r);
                    while (left) { left -= q.m[q.done].bytes.size(); ++q.done; }
                }
            } else if (q.dead) {
                s.gone.push_back(std::move(s.live[i]));
                s.live.erase(s.live.begin() + long(i));
                if (s.live.empty()) { last = i = 0; wrap = true; break; }
                if (i == last) {
                    if (i == s.live.size()) { i = 0; wrap = true; }
                    last = i;
                    continue;
                }
                if (last > i) --last;
                --i;
            }
            if (full) break;
            if (!stop) s.burst();
            if (s.live.empty()) break;
            i = (i + 1) % s.live.size();
            if (i == 0) wrap = true;
            if (i == last) break;
        }
        ++passes;
        if (lm.e->getEncodedBytes() && (full || t.chance(70))) { lm.flush(); ++flushes; full = false; }
        if (stop && !consumed && !full) {
            bool left = false;
            for (auto &q : s.live) if (q->done < q->m.size()) left = true;
            if (!left) break;
        }
        full = false;
    }
    lm.flush();
    t.extra[0] += s.order.size();
    t.extra[1] += extents;
    t.extra[2] += cuts;
    t.extra[3] += flushes;
}

static void prop(Tape &t) {
    genRegs(t, 1 + int(t.draw(6)));
    int execs = t.chance(25) ? 2 + int(t.draw(2)) : 1;
    static const size_t outs[] = {16384, 4000, 2500, 2000};
    size_t outSize = t.pick(outs);
    size_t minOut = 400;
    for (auto &r : regs()) minOut += 60 + r.file.size() + r.fmt.size() * 2;
    minOut = std::max<size_t>(minOut, 1600);
    outSize = std::max(outSize, minOut);
    LogMaker lm(outSize);
    std::vector<std::unique_ptr<Sim>> sims;
    size_t total = 0;
    for (int k = 0; k < execs; ++k) {
        sims.emplace_back(new Sim(t));
        int passes;
        execution(t, *sims.back(), lm, passes);
        Sim &s = *sims.back();
        total += s.order.size();
        if (s.order.size() >= 3 && s.nextId > 2 && passes > 2) t.nontrivial = true;
        t.key += std::to_string(s.order.size()) + "/" + std::to_string(passes) + "/";
        for (auto *m : s.order) t.key += expect(*m) + "@" + std::to_string(m->ts);
    }

    // the order in which the simulated scan wrote the log, for the record
    if (t.wantDesc) {
        Decoded u = decode(t, lm.log, false);
        (void)u;
        MemFile f(lm.log);
        static Dec &d = *new Dec;
        d.d.open(f.path.c_str());
        FILE *in = d.d.inputFd;
        FILE *nul = fopen("/dev/null", "w");
        Log::LogMessage msg; uint64_t c = 0;
        static Log::Decoder::BufferFragment &bf = *new Log::Decoder::BufferFragment;
        while (!feof(in)) {
            Log::EntryType et = Log::peekEntryType(in);
            if (feof(in)) break;
            if (et == Log::LOG_MSGS_OR_DIC) d.d.readDictionaryFragment(in);
            else if (et == Log::CHECKPOINT) { t.note("new execution\n"); d.d.readDictionary(in, true); }
            else if (et == Log::BUFFER_EXTENT) {
                bool w = false;
                bf.reset();
                if (!bf.readBufferExtent(in, &w)) break;
                t.note("extent thread %u%s:", bf.runtimeId, w ? " new pass" : "");
                while (bf.hasNext()) { t.note(" %llu", (unsigned long long)bf.nextLogTimestamp); bf.decompressNextLogStatement(nul, c, msg, d.d.checkpoint, d.d.fmtId2metadata); }
                t.note("\n");
            } else break;
        }
        fclose(nul);
    }

    for (int ordered = 0; ordered < 2; ++ordered) {
        Decoded d = decode(t, lm.log, ordered);
        if (!d.opened) t.fail("the log cannot be opened");
        if (d.rc != int64_t(total)) t.fail("%s decompression reports %lld messages instead of %zu", ordered ? "ordered" : "unordered", (long long)d.rc, total);
        size_t p = 0;
        for (size_t k = 0; k < sims.size(); ++k) {
            Sim &s = *sims[k];
            if (k) {
                if (p >= d.l.size() || !d.l[p].marker) t.fail("%s decompression does not announce execution %zu where it starts", ordered ? "ordered" : "unordered", k);
                ++p;
            }
            std::vector<std::string> want, got;
            for (auto *m : s.order) want.push_back(expect(*m));
            while (p < d.l.size() && !d.l[p].marker) got.push_back(d.l[p++].rest);
            if (ordered) {
                for (size_t i = 0; i < want.size() && i < got.size(); ++i)
                    if (want[i] != got[i]) t.fail("ordered decompression prints as message %zu of execution %zu (time %llu)\n  %.300s\ninstead of\n  %.300s", i, k, (unsigned long long)s.order[i]->ts, got[i].c_str(), want[i].c_str());
            } else {
                std::sort(want.begin(), want.end());
                std::sort(got.begin(), got.end());
                if (want != got) t.fail("unordered decompression prints a different set of messages for execution %zu", k);
            }
            if (want.size() != got.size()) t.fail("%zu messages of execution %zu printed instead of %zu", got.size(), k, want.size());
        }
        if (p != d.l.size()) t.fail("more executions are printed than there were");
    }
}

int main(int argc, char **argv) { return pbt::run(argc, argv, "p09", prop); }
