#!/usr/bin/env python3
"""P07: exactly the messages at or above the current level are recorded."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from proglib import *
import rtlib

LINE = re.compile(rb"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{9} (\S+):(\d+) ([A-Z]+)\[(\d+)\]: ")


def gen(r, flavour):
    out = []
    for k in range(r.choice([4, 8, 24])):
        parts = ["s%d " % k]
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            sp, a = r.choice([("%d", Arg("int", "gv<int>()")), ("%5u", Arg("unsigned", "gv<unsigned>()")), ("%s", Arg("lit", clit(r.choice(["x", "", "word"])))),
                              ("%.2f", Arg("double", "gv<int>() / 4.0")), ("%lx", Arg("unsigned long", "gv<unsigned long>()"))])
            parts += [r.choice(["", " ", "%%", "a"]), Conv(sp, [a], sp)]
        out.append(Stmt(1 + k % 4, parts, r.choice([0, 0, 1, 2, 3])))
    return out


def history(r, n, nst):
    """Level changes and statements; values far outside the range and on its edges included."""
    w = []
    depth = 0
    lim = r.choice([4, 10, 40, 150])
    for _ in range(r.randrange(1, lim + 1)):
        x = r.random()
        if x < .3:
            w.append("v%d" % r.choice([0, 1, 2, 3, 4, 5, -1, 6, r.randrange(-5, 12), 2147483647, -2147483648, 1000, -1000, 255, 256, 65536 + 2, -65536 + 1]))
            if r.random() < .5:
                w.append("g")
        elif x < .38:
            w.append("g")
        elif x < .43:
            w.append("s")
        elif x < .5 and depth < 2:
            w.append("(")
            depth += 1
        elif x < .56 and depth:
            w.append(")")
            depth -= 1
        else:
            w += ["l%d" % r.randrange(nst) for _ in range(r.randrange(1, 5))]
    return w + [")"] * depth


def split(exp):
    out, cur = {}, 0
    for lvl, line, fn, text in exp:
        if lvl < 0:
            cur = -1 - lvl
        else:
            out.setdefault(cur, []).append((fn, line, LV[lvl].encode(), text))
    return out


def sequential(ctx, n):
    asan = ["-std=c++17", "-O1", "-g", "-fsanitize=address"]
    l17 = {"o0": Lib17(ctx, "l0", ["-std=c++17", "-O0"], "lvmain.cc"), "o2": Lib17(ctx, "l2", ["-std=c++17", "-O2", "-DNDEBUG"], "lvmain.cc")}
    lpp = {"o0": LibPP(ctx, "m0", ["-std=c++17", "-O1"], main="lvmain.cc"), "o2": LibPP(ctx, "m2", ["-std=c++11", "-O3", "-DNDEBUG"], main="lvmain.cc")}
    gen_helper_code(ctx)
    compile_many(sum((l.jobs for l in list(l17.values()) + list(lpp.values())), []))
    dec17 = build_decompressor(ctx)
    progs = []
    for rep in range(4 if ctx.thorough else 1):
        for fl, libs in (("cpp17", l17), ("pp", lpp)):
            for tag in libs:
                progs.append((fl, tag, rep))

    def build(a):
        fl, tag, rep = a
        rr = ctx.sub_rng("prog/%s/%s/%d" % a)
        d = os.path.join(ctx.build, "lv-%s-%s-%d" % a)
        st = gen(rr, fl)
        srcs = write_program(d, st, rr, fl, files=rr.choice([1, 2]))
        try:
            e = (l17 if fl == "cpp17" else lpp)[tag].build(d, srcs, os.path.join(d, "prog"))
        except (CompileFailed, PreprocessFailed) as x:
            raise CheckError("a generated program does not build: " + x.text[:1500])
        return (e, dec17, st, d, a) if fl == "cpp17" else (e[0], e[1], st, d, a)
    built = pmap(build, progs, 4)

    def attempt(b, words):
        exe, dec, st, d, a = b
        w = tempfile.mkdtemp(dir=ctx.scratch)
        try:
            with open(os.path.join(w, "hist"), "w") as f:
                f.write(" ".join(words))
            x = run([exe, os.path.join(w, "log"), os.path.join(w, "exp"), os.path.join(w, "hist")], cwd=w, timeout=60)
            if x.timeout or x.rc != 0:
                return "the program %s: %s" % ("hangs" if x.timeout else "fails with status %s" % x.rc, summary(x.err)), 0, 0
            with open(os.path.join(w, "exp"), "rb") as f:
                exp = split(read_expect(f.read()))
            o = run([dec, "decompressUnordered", os.path.join(w, "log")], cwd=w, timeout=60)
            if o.timeout or o.rc != 0:
                return "decompression fails: %s" % summary(o.err), 0, 0
            got = {}
            for l in o.out.split(b"\r\n"):
                m = LINE.match(l)
                if m:
                    got.setdefault(m.group(4), []).append((m.group(1), int(m.group(2)), m.group(3), l[m.end():]))
                elif l and not l.startswith(b"# "):
                    return "not a log line: %r" % l[:200], 0, 0
            total = sum(len(v) for v in exp.values())
            left = [v for v in exp.values() if v]
            for tid, v in sorted(got.items()):
                if v in left:
                    left.remove(v)
                    continue
                e = next((e for e in left if e[:1] == v[:1]), left[0] if left else [])
                i = next((i for i, (p, q) in enumerate(zip(e, v)) if p != q), min(len(e), len(v)))
                return "message %d of a thread: expected %r, recorded %r" % (i, e[i] if i < len(e) else "nothing", v[i] if i < len(v) else "nothing"), total, 0
            if left:
                return "%d messages of a thread are missing, the first: %r" % (len(left[0]), left[0][0]), total, 0
            return None, total, sum(1 for x in words if x[0] == "l") - total
        finally:
            shutil.rmtree(w, ignore_errors=True)

    stop = []

    def case(i):
        if stop:
            return
        rr = ctx.sub_rng("hist%d" % i)
        b = built[i % len(built)]
        words = history(rr, i, len(b[2]))
        bad, total, supp = attempt(b, words)
        ctx.count((b[4], tuple(words)), nontrivial=total > 0 and supp > 0)
        if i in (3, 8):
            ctx.sample({"program": "%s %s %d" % b[4], "history": " ".join(words)[:500]})
        if bad:
            stop.append((b, words, bad))
    pmap(case, range(n))
    if not stop:
        return
    b, words, bad = stop[0]
    cur, tries = list(words), 0
    k = max(1, len(cur) // 2)
    while k >= 1 and tries < 150:
        i = 0
        while i < len(cur) and tries < 150:
            cand = cur[:i] + cur[i + k:]
            bal = 0
            for x in cand:
                bal += (x == "(") - (x == ")")
                if bal < 0:
                    break
            tries += 1
            r = attempt(b, cand)[0] if bal == 0 else None
            if r:
                cur, bad = cand, r
            else:
                i += k
        k //= 2
    if not all(attempt(b, cur)[0] for _ in range(3)):
        ctx.extra.setdefault("unconfirmed", []).append(bad)
        return
    src = "\n".join("\n".join(s.source("st_%d" % i, random.Random(0), b[4][0])) for i, s in enumerate(b[2]))
    p = ctx.save_replay("levels-%d.txt" % ctx.seed, "flavour and build: %s\nhistory: %s\nproblem: %s\n\n%s\n" % (b[4], " ".join(cur), bad, src))
    ctx.violation("%s; history: %s" % (bad, " ".join(cur)[:600]), p)


# ---- concurrent level changes (C++17 flavour, controlled scheduler) ----------------------------------
def clamp(n):
    return 0 if n < 0 else 4 if n > 4 else n


def windows(ev):
    """Level registers: (value, start, end) of every setLogLevel, in order of start; the initial value first."""
    w, open_ = [[3, -2, -1]], {}
    for i, e in enumerate(ev):
        if e[0] == "V":
            open_[e[1]] = len(w)
            w.append([clamp(int(e[2])), i, 1 << 60])
        elif e[0] == "v" and e[1] in open_:
            w[open_.pop(e[1])][2] = i
    return w


def possible(w, a, b):
    """Values a read within [a, b] may return."""
    out = set()
    for v, s, e in w:
        if s > b:
            continue
        if any(s2 > e and e2 < a for _, s2, e2 in w):
            continue
        out.add(v)
    return out


def judge07(rt, out, info):
    if out.timeout:
        return "the program did not terminate"
    if out.rc != 0:
        if out.rc in (95, 96, 99):
            raise CheckError("harness failure rc=%s %s" % (out.rc, out.stderr[-500:]))
        return "the program ended with status %s: %s" % (out.rc, out.stderr.strip()[-400:])
    ev = out.events
    w = windows(ev)
    lastOf = {}
    for i, e in enumerate(ev):
        if e[0] == "G":
            t = e[1]
            ok = possible(w, lastOf.get(t, -1), i)
            if int(e[2]) not in ok:
                return "thread %s: getLogLevel() returns %s, the level can only be %s" % (t, e[2], sorted(ok))
            info["reads"] = info.get("reads", 0) + 1
        t = str(e[1].t) if e[0] in "BE" else e[1] if len(e) > 1 else None
        lastOf[t] = i
    res, r = rt.decode([("u", os.path.join(out.dir, "compressedLog"))])
    if r.timeout or r.rc != 0 or res[0] is None:
        return "decompression fails: %s" % r.err.decode(errors="replace")[-300:]
    try:
        dec, marks, tail = rtlib.parse_decoded(res[0])
    except rtlib.BadOutput as e:
        return "undecodable output: %s" % e
    got = rtlib.streams(dec)
    exp = {}
    nmay = nnever = 0
    for t, ms in out.by_thread().items():
        l = []
        for m in ms:
            p = possible(w, m.b, m.e if m.e is not None else len(ev))
            if all(m.lvl > v for v in p):
                nnever += 1
                continue
            must = all(m.lvl <= v for v in p)
            nmay += not must
            l.append((rtlib.key(m), must))
        exp[t] = l

    def fits(l, ks):
        """ks is l with some of the optional messages left out."""
        reach = {0}
        for k, must in l:
            nx = set()
            for j in reach:
                if j < len(ks) and ks[j] == k:
                    nx.add(j + 1)
                if not must:
                    nx.add(j)
            reach = nx
            if not reach:
                return False
        return len(ks) in reach
    cand = {rid: [t for t, l in exp.items() if fits(l, ks)] for rid, ks in got.items()}
    for rid, c in cand.items():
        if not c:
            return "the %d messages recorded under id %d fit no thread given the levels set; the first: %r" % (len(got[rid]), rid, got[rid][:1])
    # maximum matching; threads left over must not have mandatory messages
    match = {}

    def aug(rid, seen):
        for t in cand[rid]:
            if t in seen:
                continue
            seen.add(t)
            if t not in match or aug(match[t], seen):
                match[t] = rid
                return True
        return False
    # prefer threads with mandatory messages by ordering
    for rid in cand:
        cand[rid].sort(key=lambda t: not any(m for _, m in exp[t]))
        if not aug(rid, set()):
            return "two runtime ids carry messages of one thread"
    for t, l in exp.items():
        if t not in match and any(m for _, m in l):
            return "thread %d: a message at or above the level was not recorded: %r" % (t, [k for k, m in l if m][0])
    info["suppressed"] = nnever
    info["racy"] = nmay
    info["msgs"] = len(dec)
    return None


def concurrent(ctx, n):
    rt = rtlib.RT(ctx, small=((1024, 2048),), native=())

    def scen(rng):
        g = rtlib.Gen(rng, 1024, 2048, ())
        g.dist = "tiny"
        g.sites = rng.sample(range(rtlib.NSITES), 12)

        def ops(k, pv):
            o = []
            for _ in range(k):
                if rng.random() < pv:
                    o.append("v%d" % rng.choice([0, 1, 2, 3, 4, 5, -1, 99]))
                if rng.random() < .2:
                    o.append("g")
                o += g.logs(rng.randrange(3))
                if rng.random() < .1:
                    o.append(g.pause())
            return o
        nt = rng.randrange(1, 4)
        T, main = {}, ["v%d" % rng.randrange(5)]
        for t in range(1, nt + 1):
            T[t] = ops(rng.randrange(1, 12), rng.choice([0, 0, .1, .4]))
            main.append("c%d" % t)
            main += ops(rng.randrange(0, 4), .4)
        main += ops(rng.randrange(0, 10), .4)
        for t in range(1, nt + 1):
            main.append("j%d" % t)
            main += ops(rng.randrange(0, 3), .4)
        T[0] = main
        return rtlib.Scen(T, limit=40000000)
    stop = []

    def attempt(sc, sd, info):
        out, d = rt.run("s1024_2048", sc, sd, timeout=120)
        try:
            return judge07(rt, out, info)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def case(i):
        if stop:
            return
        rng = ctx.sub_rng("conc%d" % i)
        sc = scen(rng)
        sd = rng.randrange(1 << 40)
        info = {}
        bad = attempt(sc, sd, info)
        ctx.count((sc.text(), sd), nontrivial=info.get("msgs", 0) > 0 and info.get("suppressed", 0) > 0)
        for k in ("racy", "suppressed", "reads"):
            ctx.extra["concurrent_" + k] = ctx.extra.get("concurrent_" + k, 0) + info.get(k, 0)
        if bad:
            stop.append((sc, sd, bad))
    pmap(case, range(n))
    if stop:
        sc, sd, bad = stop[0]
        last = [sc, sd, bad]

        def fails(s):
            for k in range(4):
                b = attempt(s, sd + k, {})
                if b:
                    last[:] = [s, sd + k, b]
                    return True
            return False
        if not fails(sc) or not fails(sc):
            ctx.extra.setdefault("unconfirmed", []).append(bad)
            return
        rtlib.shrink(sc, fails, 60)
        txt = "schedule seed %s\nproblem %s\nscenario:\n%s" % (last[1], last[2], last[0].text())
        p = ctx.save_replay("concurrent-%d.txt" % ctx.seed, txt)
        ctx.violation(last[2] + "\n" + txt[:1500], p)


def main():
    ctx = Ctx("P07")
    ctx.rules.append("a case is a generated history of level changes, level reads and log statements of all severities, in one of the generated programs (either flavour; threads joined) or by "
                     "concurrent threads under the controlled scheduler; non-trivial when at least one message was recorded and at least one suppressed; distinct by program and history")
    ctx.assumptions += ["a statement racing with a level change may see either level"]
    sequential(ctx, 6000 if ctx.thorough else 700)
    if not ctx.violations:
        concurrent(ctx, 3000 if ctx.thorough else 300)
    ctx.finish()


if __name__ == "__main__":
    main_wrapper(main)
