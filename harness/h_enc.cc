// P14: output-buffer boundaries.
#include "enc.h"
using namespace enc;

static void prop(Tape &t) {
    int nregs = 1 + int(t.draw(t.chance(20) ? 40 : 6));
    genRegs(t, nregs);
    // upper bound of the size of an entry in this case; its output buffers range from tiny to comfortable
    int big = t.chance(30) ? 900 : 60;
    unsigned sizeKind = unsigned(t.draw(4));
    auto newSize = [&](size_t atLeast) -> size_t {
        size_t s;
        switch (t.draw(3) == 0 ? t.draw(4) : sizeKind) {
            case 0: s = size_t(t.draw(300)); break;
            case 1: s = size_t(t.draw(1500)); break;
            case 2: s = 3000 + size_t(t.draw(3000)); break;
            default: s = 64 + size_t(t.draw(128)); break;
        }
        return std::max(s, atLeast);
    };
    std::string log;
    std::vector<Msg> accepted;
    std::vector<size_t> passStart;      // indices of accepted messages that were submitted as the first of a new pass
    std::vector<char> isCallStart;      // per accepted message: 0 inside a call, 1 first of a call without, 2 with new pass
#ifdef PREPROCESSOR_NANOLOG
    size_t first = 40;
    {
        static std::vector<char> tmp(1 << 20);
        long n = GeneratedFunctions::writeDictionary(tmp.data(), tmp.data() + tmp.size());
        first += size_t(n) + 2;
    }
    size_t cur = newSize(first);
#else
    size_t cur = newSize(sizeof(Log::Checkpoint));
#endif
    // exact-size heap buffers so that the sanitizer sees any overrun
    char *buf = static_cast<char *>(malloc(cur ? cur : 1));
    Log::Encoder *e = new Log::Encoder(buf, cur);
    std::vector<StaticLogInfo> all, known;
    all.reserve(256); known.reserve(256);
    uint32_t pos = 0;
    uint64_t events = 0;
    size_t registered = 0;
    size_t encodedEver = 0;
    auto swap = [&](size_t atLeast) {
        size_t ns = newSize(atLeast);
        char *nb = static_cast<char *>(malloc(ns ? ns : 1));
        char *o = nullptr; size_t n = 0, sz = 0;
        size_t eb = e->getEncodedBytes();
        e->swapBuffer(nb, ns, &o, &n, &sz);
        if (o != buf || n != eb || sz != cur) t.fail("swapBuffer returns a buffer/length/size of %p/%zu/%zu instead of %p/%zu/%zu", (void *)o, n, sz, (void *)buf, eb, cur);
        if (n > sz) t.fail("%zu bytes were encoded into a buffer of %zu", n, sz);
        if (e->getEncodedBytes() != 0) t.fail("a fresh buffer reports %zu encoded bytes", e->getEncodedBytes());
        log.append(o, n);
        free(o);
        buf = nb;
        cur = ns;
        t.extra[0]++;
    };
#ifdef PREPROCESSOR_NANOLOG
    registered = regs().size();
#endif
    struct Q { uint32_t thread; std::vector<Msg> m; size_t done; };
    std::vector<Q> qs;
    int nthreads = 1 + int(t.draw(4));
    static const uint32_t ids[] = {0, 1, 15, 16, 17, 127, 128, 255, 256, 65535, 65536, 16777215, 16777216, 0x7fffffff, 0xfffffffe, 4};
    for (int i = 0; i < nthreads; ++i) qs.push_back({ids[t.draw(16)], {}, 0});
    uint64_t ts = t.chance(50) ? 1000000 : t.bits();
    int ops = 1 + int(t.draw(60));
    long splitCalls = 0, rejected = 0;
    for (int k = 0; k < ops; ++k) {
        switch (t.draw(8)) {
            case 0:         // register more statements
                if (registered < regs().size()) {
                    registered += 1 + size_t(t.draw(regs().size() - registered));
                    t.note("register up to %zu\n", registered);
                }
                break;
            case 1: {       // persist the dictionary
#ifndef PREPROCESSOR_NANOLOG
                all.clear();
                for (size_t i = 0; i < registered; ++i) all.push_back(infoOf(i));
                uint32_t before = pos;
                size_t eb = e->getEncodedBytes();
                uint32_t n = e->encodeNewDictionaryEntries(pos, all);
                t.note("dictionary %u -> %u of %zu, %u bytes at %zu of %zu\n", before, pos, registered, n, eb, cur);
                if (pos < before || pos > registered) t.fail("the dictionary position moved from %u to %u with %zu statements", before, pos, registered);
                if (e->getEncodedBytes() - eb != n) t.fail("dictionary encoding reports %u bytes but used %zu", n, e->getEncodedBytes() - eb);
                if (pos > before && n == 0) t.fail("dictionary entries accepted with no output");
                for (uint32_t i = before; i < pos; ++i) known.push_back(infoOf(i));
                if (pos < registered) ++splitCalls;
#endif
                break;
            }
            case 2: case 3: case 4: {       // log
                if (!registered) registered = 1;
                Q &q = qs[t.draw(qs.size())];
                int n = 1 + int(t.draw(t.chance(25) ? 30 : 4));
                for (int i = 0; i < n; ++i) {
                    ts += t.chance(30) ? t.draw(1ULL << t.draw(40)) : t.draw(100);
                    Msg m = genMsg(t, uint32_t(t.draw(registered)), ts, big);
                    m.thread = q.thread;
                    if (m.bytes.size() >= NanoLogConfig::STAGING_BUFFER_SIZE / 2 - 1) continue;
                    q.m.push_back(m);
                }
                break;
            }
            case 5: case 6: {       // encode
                Q &q = qs[t.draw(qs.size())];
                if (q.done == q.m.size()) break;
                std::vector<char> b;
                std::vector<size_t> ends;
                for (size_t i = q.done; i < q.m.size(); ++i) { b.insert(b.end(), q.m[i].bytes.begin(), q.m[i].bytes.end()); ends.push_back(b.size()); }
                uint64_t n = std::min<uint64_t>(b.size(), NanoLogConfig::RELEASE_THRESHOLD);     // as the output thread does
                if (t.chance(30)) n = 1 + t.draw(n);
                bool np = t.chance(30);
                size_t eb = e->getEncodedBytes();
                uint64_t ev = events;
#ifdef PREPROCESSOR_NANOLOG
                // every header must be readable, as in a staging buffer
                size_t hdr = b.size();
                b.resize(hdr + 64);
                long r = e->encodeLogMsgs(b.data(), n, q.thread, np, &events);
#else
                b.resize(b.size() + 64);
                long r = e->encodeLogMsgs(b.data(), n, q.thread, np, known, &events);
#endif
                t.note("encode %llu bytes of thread %u%s at %zu of %zu: %ld accepted\n", (unsigned long long)n, q.thread, np ? " (new pass)" : "", eb, cur, r);
                if (r < 0 || uint64_t(r) > n) t.fail("%ld of %llu bytes were reported as accepted", r, (unsigned long long)n);
                size_t cnt = 0;
                while (cnt < ends.size() && ends[cnt] <= size_t(r)) ++cnt;
                if (r && (cnt == 0 || ends[cnt - 1] != size_t(r))) t.fail("the encoder stopped at byte %ld, inside a message", r);
                if (events - ev != cnt) t.fail("%llu events were counted for %zu accepted messages", (unsigned long long)(events - ev), cnt);
                if (e->getEncodedBytes() < eb || e->getEncodedBytes() > cur) t.fail("%zu bytes encoded in a buffer of %zu", e->getEncodedBytes(), cur);
                // Nothing stands in the way of the first message: it must be taken
                const Msg &m0 = q.m[q.done];
#ifdef PREPROCESSOR_NANOLOG
                bool haveDict = true;
#else
                bool haveDict = m0.reg < pos;
#endif
                if (!haveDict && cnt) t.fail("a message of an unknown statement was accepted");
                if (cnt == 0 && haveDict && n >= m0.bytes.size() && cur - eb >= 9 + 2 * m0.bytes.size() + 16 + 32)
                    t.fail("a message of %zu bytes is not accepted into %zu free bytes", m0.bytes.size(), cur - eb);
                if (cnt < ends.size()) ++splitCalls;
                if (cnt == 0) ++rejected;
                for (size_t i = 0; i < cnt; ++i) { isCallStart.push_back(i ? 0 : (np ? 2 : 1)); accepted.push_back(q.m[q.done + i]); }
                q.done += cnt;
                encodedEver += cnt;
                break;
            }
            default:
                t.note("swap\n");
                swap(0);
                break;
        }
    }
    // drain: everything left must get through once buffers are large enough
#ifndef PREPROCESSOR_NANOLOG
    all.clear();
    for (size_t i = 0; i < registered; ++i) all.push_back(infoOf(i));
    for (int tries = 0; pos < registered; ++tries) {
        uint32_t before = pos;
        e->encodeNewDictionaryEntries(pos, all);
        for (uint32_t i = before; i < pos; ++i) known.push_back(infoOf(i));
        if (pos == before) { if (tries > 200) t.fail("the dictionary entry of statement %u never fits", pos); swap(tries > 3 ? 400 : 0); }
    }
#endif
    for (auto &q : qs) {
        int idle = 0;
        while (q.done < q.m.size()) {
            std::vector<char> b;
            std::vector<size_t> ends;
            for (size_t i = q.done; i < q.m.size(); ++i) { b.insert(b.end(), q.m[i].bytes.begin(), q.m[i].bytes.end()); ends.push_back(b.size()); }
            uint64_t n = std::min<uint64_t>(b.size(), NanoLogConfig::RELEASE_THRESHOLD);
            b.resize(b.size() + 64);
#ifdef PREPROCESSOR_NANOLOG
            long r = e->encodeLogMsgs(b.data(), n, q.thread, false, &events);
#else
            long r = e->encodeLogMsgs(b.data(), n, q.thread, false, known, &events);
#endif
            size_t cnt = 0;
            while (cnt < ends.size() && ends[cnt] <= size_t(r)) ++cnt;
            if (r < 0 || size_t(r) > b.size() || (r && (cnt == 0 || ends[cnt - 1] != size_t(r)))) t.fail("the encoder stopped at byte %ld, inside a message", r);
            for (size_t i = 0; i < cnt; ++i) { isCallStart.push_back(i ? 0 : 1); accepted.push_back(q.m[q.done + i]); }
            q.done += cnt;
            if (cnt) idle = 0;
            else {
                if (++idle > 40) t.fail("a message of %zu bytes is never accepted", q.m[q.done].bytes.size());
                ++rejected;
                swap(idle > 2 ? 4200 : 0);
            }
        }
    }
    swap(0);
    if (events != accepted.size()) t.fail("%llu events were counted for %zu messages", (unsigned long long)events, accepted.size());
    delete e;
    free(buf);
    t.nontrivial = accepted.size() >= 2 && (splitCalls > 0 || rejected > 0);
    t.extra[1] += accepted.size();
    t.extra[2] += uint64_t(splitCalls);
    t.extra[3] += uint64_t(rejected);
    if (t.nontrivial) { char b[64]; snprintf(b, sizeof b, "%zu/%zu/", log.size(), accepted.size()); t.key = b; for (auto &m : accepted) t.key += expect(m); }

    // decoding gives the accepted messages
    Decoded d = decode(t, log, false);
    if (!d.opened) t.fail("the log cannot be opened");
    size_t i = 0;
    for (auto &l : d.l) {
        if (l.marker) t.fail("an execution marker appears in a single execution");
        if (i >= accepted.size()) t.fail("message %zu '%.300s' was never accepted", i, l.rest.c_str());
        std::string x = expect(accepted[i]);
        if (l.rest != x) t.fail("message %zu decodes as\n  %.400s\ninstead of\n  %.400s", i, l.rest.c_str(), x.c_str());
        ++i;
    }
    if (i != accepted.size()) t.fail("only %zu of %zu accepted messages decode; missing '%.300s'", i, accepted.size(), expect(accepted[i]).c_str());
    if (d.rc != int64_t(accepted.size())) t.fail("decompression reports %lld messages instead of %zu", (long long)d.rc, accepted.size());

    // timestamps, ids and pass markers, extent by extent
    MemFile f(log);
    FILE *in = fopen(f.path.c_str(), "rb");
    Log::Checkpoint cp;
    if (!Log::readCheckpoint(cp, in)) t.fail("no checkpoint");
    fseek(in, long(cp.newMetadataBytes), SEEK_CUR);
    static Dec &dec = *new Dec;     // provides the dictionary for stepping through extents
    if (!dec.d.open(f.path.c_str())) t.fail("the log cannot be opened twice");
    FILE *nul = fopen("/dev/null", "w");
    Log::LogMessage lm;
    uint64_t cnt = 0;
    i = 0;
    while (true) {
        Log::EntryType et = Log::peekEntryType(in);
        if (feof(in)) break;
        if (et == Log::LOG_MSGS_OR_DIC) {
            Log::DictionaryFragment df;
            if (fread(&df, sizeof df, 1, in) != 1) t.fail("a dictionary fragment is cut short");
            fseek(in, -long(sizeof df), SEEK_CUR);
            if (!dec.d.readDictionaryFragment(in)) t.fail("a dictionary fragment cannot be read");
        } else if (et == Log::BUFFER_EXTENT) {
            static Log::Decoder::BufferFragment &bf = *new Log::Decoder::BufferFragment;
            bf.reset();
            bool wrap = false;
            if (!bf.readBufferExtent(in, &wrap)) t.fail("a buffer extent cannot be read");
            bool firstIn = true;
            while (bf.hasNext()) {
                if (i >= accepted.size()) t.fail("more messages in the extents than accepted");
                if (bf.nextLogTimestamp != accepted[i].ts || bf.nextLogId != accepted[i].reg) t.fail("message %zu carries id %u at %llu instead of id %u at %llu", i, bf.nextLogId, (unsigned long long)bf.nextLogTimestamp, accepted[i].reg, (unsigned long long)accepted[i].ts);
                if (bf.runtimeId != accepted[i].thread) t.fail("message %zu is attributed to thread %u instead of %u", i, bf.runtimeId, accepted[i].thread);
                if (isCallStart[i] == 2 && !(firstIn && wrap)) t.fail("the new pass starting at message %zu is not marked", i);
                if (firstIn && wrap && isCallStart[i] != 2) t.fail("a new pass is marked at message %zu where there is none", i);
                firstIn = false;
                bf.decompressNextLogStatement(nul, cnt, lm, dec.d.checkpoint, dec.d.fmtId2metadata);
                ++i;
            }
        } else t.fail("unexpected entry of type %d in the log", int(et));
    }
    fclose(nul);
    fclose(in);
    if (i != accepted.size()) t.fail("the extents hold %zu messages instead of %zu", i, accepted.size());
}

int main(int argc, char **argv) { return pbt::run(argc, argv, "p14", prop); }
