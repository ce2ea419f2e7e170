#!/usr/bin/env python3
"""P17: the decompressor's find, minMaxMean and rcdfTime commands."""
import os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from proglib import *

INT = re.compile(rb"v=\s*([-+]?\d+)\s*;", re.S)


def gen(r, n):
    """Statements; most start with an int argument that the expected text shows as v=<n>;"""
    out = []
    words = ["alpha", "beta", "alphabet", "a.b", "x*y", "[z]", "Alpha", "%% done", "q\\w", "tab\there", "\"quoted\"", "beta ", "0", "|", "1 | 2"]
    for s in gen_stmts(r, n, "pp", p=[c for c in pool()]):
        parts = [r.choice(words) + " " + r.choice(words)] if r.random() < .8 else [""]
        k = r.random()
        if k < .65:
            sp, args = r.choice([("%d", []), ("%i", []), ("%-7d", []), ("%+d", []), ("%*d", [Arg("int", "gv_width()")]), ("%08i", []), ("%.3d", [])])
            ty = r.choice([Arg("int", "gv<int>()"), Arg("int", "(int)(gv_bits() % 1000)"), Arg("int", "-(int)(gv_bits() % 100)"), Arg("int", "INT32_MAX - (int)(gv_bits() % 3)"), Arg("int", "INT32_MIN + (int)(gv_bits() % 3)")])
            parts += ["v=", Conv(sp, args + [ty], "int"), ";"] + s.parts[:4]
        else:
            parts += s.parts[:5]
        out.append(Stmt(s.lvl, parts, r.choice([0, 2, 3])))
        while r.random() < .15:         # the same format again
            o = r.choice(out)
            out.append(Stmt(r.choice([o.lvl, s.lvl]), o.parts, r.choice([0, 2, 3])))
    return out


class Prog:
    pass


def main():
    ctx = Ctx("P17")
    ctx.rules.append("a case is one decompressor command (find, minMaxMean or rcdfTime) on the log of one generated execution; non-trivial when the log has messages and, for find and "
                     "minMaxMean, something matches; distinct by log and command")
    ctx.assumptions += ["aggregated arguments are of int size", "logs of one program and, for latencies, one logging thread"]
    flags = ["-std=c++17", "-O1"]
    asan = ["-std=c++17", "-O1", "-g", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]
    lpp = LibPP(ctx, "a", flags, asan)
    compile_many(lpp.jobs)
    r = ctx.sub_rng("programs")

    def build(k):
        rng = ctx.sub_rng("prog%d" % k)
        p = Prog()
        p.d = os.path.join(ctx.build, "p%d" % k)
        p.stmts = gen(rng, rng.choice([1, 4, 20, 40]))
        srcs = write_program(p.d, p.stmts, rng, "pp", files=rng.choice([1, 3]))
        try:
            p.exe, p.dec = lpp.build(p.d, srcs, os.path.join(p.d, "prog"))
        except (CompileFailed, PreprocessFailed) as e:
            raise CheckError("a generated program does not build: " + e.text[:1500])
        sm = stmt_map(p.d, srcs)
        p.where = {i: (f.encode(), l) for (f, l), i in sm.items()}
        p.fmts = {i: s.fmt().encode("utf-8") for i, s in enumerate(p.stmts)}
        p.src = "\n".join("\n".join(s.source("st_%d" % i, random.Random(0), "pp")) for i, s in enumerate(p.stmts))
        return p
    progs = pmap(build, range(12 if ctx.thorough else 4), 3)

    def cmd(p, log, c, *a):
        o = run([p.dec, c, log] + list(a), cwd=p.d, timeout=120)
        if o.timeout:
            return None, "%s %s does not terminate" % (c, a)
        if o.rc < 0 or o.rc in (86, 134, 136, 139) or b"AddressSanitizer" in o.err:
            return None, "%s %s crashes (status %s): %s" % (c, a, o.rc, summary(o.err))
        return o, None

    def case(p, seed, rounds, runs, rng, cnt):
        """None or the problem."""
        d = tempfile.mkdtemp(dir=ctx.scratch)
        try:
            return case1(p, seed, rounds, runs, rng, cnt, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def case1(p, seed, rounds, runs, rng, cnt, d):
        log, ex = os.path.join(d, "log"), os.path.join(d, "exp")
        exp = []
        for k in range(runs):
            x = run([p.exe, log, ex, str(seed + k), str(rounds)], cwd=d, timeout=120)
            if x.timeout or x.rc != 0:
                return "the logging program fails: " + summary(x.err)
            with open(ex, "rb") as f:
                exp += read_expect(f.read())
        bywhere = {}
        for lvl, line, fn, text in exp:
            bywhere.setdefault((fn, line), []).append(text)
        # --- find
        ids = {}
        queries = [b""] + [rng.choice(list(p.fmts.values())) for _ in range(2)] + [b"no such text anywhere", b"alpha", b"Beta"]
        for _ in range(4):
            f = rng.choice(list(p.fmts.values()))
            a = rng.randrange(len(f) + 1)
            queries.append(f[a:a + rng.randrange(1, 9)])
        for q in queries:
            if b"\0" in q:
                continue
            o, bad = cmd(p, log, "find", q)
            if bad:
                return bad
            want = {i for i, f in p.fmts.items() if q in f}
            head = re.match(rb"\s*id \| filename +\| line \| format string\r\n", o.out)
            if not head:
                return "find prints no table: %r" % o.out[:200]
            rest = o.out[head.end():]
            found = {}
            while rest:
                m = re.match(rb" *(\d+) \| (\S+) *\| (\d+) *\| ", rest)
                hit = None
                if m:
                    w = (m.group(2), int(m.group(3)))
                    hit = next((i for i in p.fmts if p.where[i] == w), None)
                if hit is None or not rest.startswith(p.fmts[hit] + b"\r\n", m.end()):
                    return "find %r prints %r, which is no statement of the program" % (q, rest[:200])
                if hit in found:
                    return "find %r lists %r twice" % (q, rest[:m.end()])
                found[hit] = int(m.group(1))
                rest = rest[m.end() + len(p.fmts[hit]) + 2:]
            if set(found) != want:
                i = sorted(set(found) ^ want)[0]
                return "find %r %s the statement %r (%s:%d)" % (q, "lists" if i in found else "does not list", p.fmts[i], p.where[i][0].decode(), p.where[i][1])
            for i, k in found.items():
                if ids.setdefault(i, k) != k:
                    return "find gives statement %r the ids %d and %d" % (p.fmts[i], ids[i], k)
            if len(set(ids.values())) != len(ids):
                return "find gives two statements the same id"
            cnt(("find", seed, q), bool(found) and len(exp) > 0)
        # --- minMaxMean
        some = rng.sample(sorted(ids), min(len(ids), 6))
        unused = [i for i in ids if p.where[i] not in bywhere]
        if unused:
            some.append(rng.choice(unused))
        for i in some:
            o, bad = cmd(p, log, "minMaxMean", str(ids[i]))
            if bad:
                return bad
            ms = bywhere.get(p.where[i], [])
            f = {k: v for k, v in re.findall(rb"(Logs Encountered|Matching Logs|Min|Max|Mean|Total): (-?[\d.]+)", o.out[o.out.rfind(b"Logs Encountered"):])}
            if set(f) != {b"Logs Encountered", b"Matching Logs", b"Min", b"Max", b"Mean", b"Total"}:
                return "minMaxMean %d prints %r" % (ids[i], o.out[:400])
            if int(f[b"Logs Encountered"]) != len(exp):
                return "minMaxMean %d encounters %s messages instead of %d" % (ids[i], f[b"Logs Encountered"].decode(), len(exp))
            if int(f[b"Matching Logs"]) != len(ms):
                return "minMaxMean %d (%r) finds %s matching messages instead of %d" % (ids[i], p.fmts[i], f[b"Matching Logs"].decode(), len(ms))
            cv = p.stmts[i].convs()
            cnt(("mmm", seed, i), bool(ms))
            if not ms or not cv or cv[0].kind != "int":
                continue
            vals = [int(INT.search(t).group(1)) for t in ms]
            for name, v in ((b"Min", min(vals)), (b"Max", max(vals)), (b"Total", sum(vals))):
                if int(f[name]) != v:
                    return "minMaxMean %d (%r): %s is %s instead of %d over %d messages" % (ids[i], p.fmts[i], name.decode(), f[name].decode(), v, len(vals))
            if abs(float(f[b"Mean"]) - sum(vals) / len(vals)) >= 1:
                return "minMaxMean %d (%r): mean %s instead of %g" % (ids[i], p.fmts[i], f[b"Mean"].decode(), sum(vals) / len(vals))
        for q in (str(len(p.stmts) + rng.randrange(5)), "2000000", "-1", "x", "99999999999"):       # no such statement
            o, bad = cmd(p, log, "minMaxMean", q)
            if bad:
                return bad
            m = re.search(rb"Matching Logs: (\d+)", o.out)
            if m and int(m.group(1)):
                return "minMaxMean %s (no such statement) finds %s messages" % (q, m.group(1).decode())
        # --- rcdfTime
        if runs == 1 and rng.random() < .5:     # the log of a machine with another clock
            with open(log, "r+b") as f:
                head = f.read(64)
                at = [k for k in range(8, 33) if 1e8 < struct.unpack_from("<d", head, k)[0] < 1e11]
                if len(at) == 1:
                    f.seek(at[0])
                    f.write(struct.pack("<d", struct.unpack_from("<d", head, at[0])[0] * rng.choice([.2, .7, 1.5, 8])))
                    ctx.extra["logs_of_other_clocks"] = ctx.extra.get("logs_of_other_clocks", 0) + 1
        o, bad = cmd(p, log, "decompressUnordered")
        if bad:
            return bad
        times = []
        pos = 0
        for lvl, line, fn, text in exp:
            m = TS.search(o.out, pos)
            if not m:
                return None         # undecodable: not this property's business
            b = m.group(0).decode()
            times.append(int(b[11:13]) * 3600000000000 + int(b[14:16]) * 60000000000 + int(b[17:19]) * 1000000000 + int(b[20:29]))
            pos = o.out.find(b"]: ", m.end()) + 3 + len(text)
        o, bad = cmd(p, log, "rcdfTime")
        if bad:
            return bad
        if runs > 1:
            return None             # printed times of two executions do not share a time base to the nanosecond
        ds = sorted((b - a) % 86400000000000 for a, b in zip(times, times[1:]))
        pts = [(float(a), float(b)) for a, b in re.findall(rb"^ *(\d+\.\d\d) +(\d\.\d{10})\r$", o.out, re.M)]
        if not ds:
            return None if not pts else "rcdfTime prints %r for a log of %d messages" % (pts[:3], len(exp))
        tol = lambda v: 2.5 + v * 3e-3
        cnt(("rcdf", seed, rounds), len(ds) > 2)
        m = re.search(rb"aggregate (\d+) time entries", o.out)
        if not m or int(m.group(1)) != len(ds):
            return "rcdfTime aggregates %s entries instead of %d" % (m.group(1).decode() if m else "no", len(ds))
        if len(pts) < 2:
            return "rcdfTime prints no distribution: %r" % o.out[:300]
        if abs(pts[0][0] - ds[0]) > tol(ds[0]) or pts[0][1] != 1:
            return "rcdfTime starts at %s instead of (%d, 1.0)" % (pts[0], ds[0])
        if abs(pts[-1][0] - ds[-1]) > tol(ds[-1]) or abs(pts[-1][1] - 1 / len(ds)) > 1e-9:
            return "rcdfTime ends at %s instead of (%d, %g)" % (pts[-1], ds[-1], 1 / len(ds))
        import bisect
        for a, b in zip(pts, pts[1:]):
            if b[0] < a[0] or (b[1] > a[1] and b is not pts[-1]):
                return "rcdfTime is not monotonic: %s, %s" % (a, b)
        for lat, pct in pts[1:-1]:
            hi = len(ds) - bisect.bisect_left(ds, lat - tol(lat))
            lo = len(ds) - bisect.bisect_right(ds, lat + tol(lat))
            if not lo - 1e-6 <= pct * len(ds) <= hi + 1e-6:
                return "rcdfTime: %g of the latencies are above %.2f ns; the log says %d..%d of %d" % (pct, lat, lo, hi, len(ds))
        m = re.search(rb"The mean was (\d+\.\d+) ns", o.out)
        mean = (times[-1] - times[0]) % 86400000000000 / len(ds)
        if not m or abs(float(m.group(1)) - mean) > 1.5 + mean * 3e-3:
            return "rcdfTime: the mean is %s, the log says %.2f" % (m.group(1).decode() if m else "missing", mean)
        return None

    fails = []

    def one(i):
        if fails:
            return
        rng = ctx.sub_rng("case%d" % i)
        p = rng.choice(progs)
        seed, rounds, runs = rng.randrange(1 << 30), rng.choice([0, 1, 2, 3, 10, 50, 300, 3000]), rng.choice([1, 1, 1, 2])

        def cnt(key, nt):
            ctx.count(key, nontrivial=nt)
            ctx.extra[key[0]] = ctx.extra.get(key[0], 0) + 1
        st = rng.getstate()
        bad = case(p, seed, rounds, runs, rng, cnt)
        if bad:
            fails.append((p, seed, rounds, runs, st, bad))
    pmap(one, list(range(600 if ctx.thorough else 60)))
    ctx.sample({"formats": [repr(f) for f in list(progs[0].fmts.values())[:8]]})
    ctx.sample({"formats": [repr(f) for f in list(progs[-1].fmts.values())[:8]]})
    if fails:
        p, seed, rounds, runs, st, bad = fails[0]

        def again(rounds, runs):
            rng = random.Random()
            rng.setstate(st)
            return case(p, seed, rounds, runs, rng, lambda k, n: None)
        if not all([again(rounds, runs) for _ in range(2)]):
            ctx.extra.setdefault("unconfirmed", []).append(bad)
        else:
            for rr in (0, 1, 2, 3, 10, 50, 300):
                if rr < rounds:
                    b = again(rr, 1)
                    if b:
                        rounds, runs, bad = rr, 1, b
                        break
            rp = ctx.save_replay("case-%d.txt" % ctx.seed, "value seed %d, rounds %d, executions %d\nproblem %s\n\n%s\n" % (seed, rounds, runs, bad, p.src))
            ctx.violation(bad, rp)
    ctx.finish()


if __name__ == "__main__":
    main_wrapper(main)
