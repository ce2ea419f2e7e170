#!/usr/bin/env python3
"""P18: combining source files gives each statement one consistent identity."""
import os, sys, hashlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from layout import *

LEVELS = ["NOTICE", "ERROR", "WARNING", "DEBUG", "NanoLog::NOTICE", "NanoLog::LogLevels::DEBUG"]
# Formats that differ in little, several of which are spelled alike once punctuation is replaced by numbers.
FMTS = [("a b", ""), ("a.b", ""), ("a-b", ""), ("a_b", ""), ("a b ", ""), (" a b", ""), ("a  b", ""), ("A b", ""), ("", ""), (" ", ""), ("  ", ""), ("%%", ""), ("\\\\", ""), ("\\t", ""), ("\\\"", ""), ("'", ""),
        ("a32b", ""), ("a46b", ""), ("32", ""), ("3737", ""), ("9292", ""), ("%d", "i"), ("37d", ""), ("%i", "i"), ("%u", "u"), ("%5d", "i"), ("375d", ""), ("%ld", "l"), ("%s", "s"), ("37s", ""), ("%s ", "s"), ("%s32", "s"),
        ("%d %s", "is"), ("%s %d", "si"), ("%d32%s", "is"), ("%x%s", "us"), ("%.3s", "s"), ("%*d", "ii"), ("%.*s", "js"), ("%3742d", "q"), ("%c", "i"), ("%f", "f"), ("37f", ""), ("%g", "f"), ("caf\u00e9", ""), ("caf233", ""),
        ("__", ""), ("a__b__1__", ""), ("9595", ""), ("x__f0.cc__10__", ""), ("/* %d */", "i"), ("// %s", "s"), ("{%d}", "i"), ("{0}", ""), ("%d%d", "ii"), ("%d37d", "i"), ("#%zu", "z"), ("\\n", ""), ("a\\nb", ""),
        ("%d long " + "y" * 300, "i"), ("%p", "p")]
FMTS = [f for f in FMTS if f[1] != "q"]
LONG = [["m" * 200 + c + "n" * 200 for c in "abc"], ["head %s " % c + "t" * 350 for c in "ab"], ["h" * 350 + " tail" + c for c in "ab"], ["z" * k for k in (500, 501, 502)]]
FMTS += [(f, "") for g in LONG for f in g]
ALIKE = [["%d", "37d"], ["%s", "37s"], [" ", "32"], ["a b", "a32b"], ["a.b", "a46b"], ["%f", "37f"], ["%%", "3737"], ["__", "9595"], ["\\\\", "9292"], ["%5d", "375d"], ["%d%d", "%d37d"], ["%d %s", "%d32%s"],
         ["a b", "a.b"], ["a-b", "a_b"], ["a b", "A b"], ["a b", "a  b"], ["a b", "a b "], ["%d", "%i"], ["%d", "%u"], ["%s", "%.3s"], ["caf\u00e9", "caf233"], ["", " "], ["%f", "%g"]] + LONG
NAMES = ["main46cc", "main.cc", "d/main.cc", "d47main.cc", "m-ain.cc", "m45ain.cc", "d_main.cc", "d-main.cc", "e/main.cc", "d/main.cc", "d/e/main.cc", "main.cc", "main.h", "a b.cc", "caf\u00e9.cc", "x\\\\y.cc", "q\\\"q.cc", "main.cc.1", "MAIN.cc"]


def enc(s):
    """What the names of two statements have in common when they coincide (only used to stay away from the known finding)."""
    return "".join(c if c.isalnum() else str(ord(c)) for c in s)


class Gen:
    def __init__(self, r, i):
        self.r = r
        self.nid = 0
        # few formats and file names per program, so that statements are alike in all respects but one
        g = sum([ALIKE[(3 * i + k) % len(ALIKE)] for k in range(3)], [])
        self.pool = [f for f in FMTS if f[0] in g] + r.sample(FMTS, r.choice([0, 0, 3, 20]))
        k = r.randrange(len(NAMES) - 1)
        self.names = NAMES[k:k + 2] + r.sample(NAMES, r.choice([0, 1, 3]))
        self.alias = {}     # encoded (format, line, file) of aliased files -> the one statement that may be there

    def arg(self, k):
        r = self.r
        self.nid += 1
        return {"i": r.choice(["a", "b", "a + %d" % self.nid, str(r.randrange(-5, 99))]), "u": "(unsigned)a + %du" % self.nid, "l": "(long)b * %dL" % (self.nid * 10 ** 9), "j": "(a & 3)",
                "s": r.choice(['"s%d"' % self.nid, '(a ? "t" : "")', '""', '"a b"']), "f": "a / 4.0 + %d" % self.nid, "z": "sizeof(int) + (size_t)a", "p": "(void *)(uintptr_t)(a + %d)" % (4096 * self.nid)}[k]

    def stmt(self, f=None, lv=None):
        fmt, ks = f or self.r.choice(self.pool)
        return "NANO_LOG(%s, \"%s\"%s);" % (lv or self.r.choice(LEVELS), fmt, "".join(", " + self.arg(k) for k in ks))

    def line(self):
        r = self.r
        n = r.choice([1, 1, 2, 3, 5])
        if r.random() < .25:        # the same statement, or the same format at different levels, several times on a line
            f = r.choice(self.pool)
            return " ".join(self.stmt(f) for _ in range(n))
        if r.random() < .15:        # formats that are likely to be encoded alike
            g = list(r.choice(ALIKE))
            r.shuffle(g)
            lv = r.choice(LEVELS + [None])
            return " ".join(self.stmt(next(f for f in FMTS if f[0] == x), lv) for x in g)
        return " ".join(self.stmt() for _ in range(n))

    def body(self, lines):
        r = self.r
        return "".join("    " + self.line() + "\n" + "\n" * r.choice([0, 0, 0, 1, 9]) for _ in range(lines))

    def aliased(self, name):
        """A function under #line with a file name that other sources use too."""
        r = self.r
        file, line = r.choice(self.names), r.choice([1, 10, 110])
        if r.random() < .6:
            file, line = self.names[0], 10
        out = "#line %d \"%s\"\nvoid %s(int a, int b) {\n" % (line, file, name)
        for k in range(r.choice([1, 2, 3])):
            ss = []
            for _ in range(r.choice([1, 2, 4, 6])):
                f = r.choice(self.pool)
                key = (enc(f[0]), enc(file), line + 1 + k)
                lv = r.choice(LEVELS)
                have = self.alias.setdefault(key, (f, file, lv))
                if have[0] != f or have[1] != file:
                    continue
                ss.append(self.stmt(f, have[2]))
            out += "    " + " ".join(ss) + "\n"
        return out + "}\n"

    def source(self, f, units, hdrs, empty=False):
        """(text, extra files, unit names)"""
        r = self.r
        if empty:
            return r.choice(["", "int unused_%d = 3;\n" % f, PRELUDE]), {}, []
        t = PRELUDE + "".join("#include \"%s\"\n" % h for h in hdrs)
        names, extra = [], {}
        for k in range(units):
            nm = "u%d_%d" % (f, k)
            kind = r.randrange(9)
            if kind < 2:
                t += "void %s(int a, int b) {\n%s}\n" % (nm, self.body(r.choice([1, 2, 5])))
            elif kind < 6:
                t += self.aliased(nm) + "#line %d \"s%d.cc\"\n" % (r.choice([1, 100, 1000, 10000]) * (k + 1) + 20, f)
            elif kind == 6:
                inc = "x%d_%d.inc" % (f, k)
                extra[inc] = "void FN(int a, int b) {\n    NANO_LOG(LV, \"inc \" SUF, a);\n    NANO_LOG(LV, \"fixed\");\n%s}\n" % self.body(1)
                subs = []
                for q in range(r.choice([1, 2, 3])):
                    t += "#define FN %s_i%d\n#define LV %s\n#define SUF \"%s\"\n#include \"%s\"\n#undef FN\n#undef LV\n#undef SUF\n" % (nm, q, r.choice(LEVELS[:4]), r.choice(["%d", "%d.", "37d %d", "%d %%"]), inc)
                    subs.append("%s_i%d(a, b);" % (nm, q))
                t += "void %s(int a, int b) { %s }\n" % (nm, " ".join(subs))
            elif kind == 7:
                t += "template<typename X> static void t_%s(X a, int b) {\n%s}\nvoid %s(int a, int b) { t_%s<int>(a, b); t_%s(b, a); }\n" % (nm, self.body(2), nm, nm, nm)
            else:
                t += "void %s(int a, int b) {\n    LOGI(a); LOGI(b); LOGS(a);\n    LOGB(b); LOG3(a)\n    LOGV(\"%%d\", a); LOGV(\"37d\"); LOGV(\"%%s\", \"v\");\n}\n" % nm
            names.append(nm)
        if hdrs:
            t += "void uh%d(int a, int b) { %s }\n" % (f, " ".join("hf_%s(a, b);" % h[1:-2].replace("/", "_") for h in hdrs))
            names.append("uh%d" % f)
        return t, extra, names

    def header(self, k):
        nm = "h%d.h" % k
        return nm, "#pragma once\n%sinline void hf_%d(int a, int b) {\n%s}\n" % (PRELUDE, k, self.body(self.r.choice([1, 2, 4])))

    def program(self, files, units):
        r = self.r
        prog, srcs, names = {}, [], {}
        hdrs = []
        for k in range(r.choice([0, 1, 2])):
            nm, t = self.header(k)
            prog[nm] = t
            hdrs.append(nm)
        for f in range(files):
            s = "s%d.cc" % f
            use = r.sample(hdrs, r.randrange(len(hdrs) + 1))
            t, extra, n = self.source(f, r.randrange(1, units + 1), use, empty=f > 0 and r.random() < .08)
            prog[s] = t
            prog.update(extra)
            srcs.append(s)
            names[s] = n
        return prog, srcs, names


def calls(names):
    every = sum(names.values(), [])
    return '#include "lay.h"\n' + "".join("void %s(int a, int b);\n" % n for n in every) + "void lay_run(int a, int b) {\n" + "".join("  %s(a, b);\n" % n for n in every) + "}\n"


class Project:
    """A directory with a program that is built step by step, the way make does it."""

    def __init__(self, lay, name):
        self.lay, self.pp, self.ctx = lay, lay.pp, lay.ctx
        self.d = os.path.join(lay.ctx.build, name)
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d)
        self.objs, self.gens = {}, {}

    def gen(self, order):
        """Objects (program, decompressor) of the code combined in that order; equal code is compiled once."""
        d, pp = self.d, self.pp
        pp.combine(d, [s + ".map" for s in order], "GeneratedCode.cc")
        text = open(os.path.join(d, "GeneratedCode.cc"), "rb").read()
        h = hashlib.sha256(text).hexdigest()[:12]
        if h not in self.gens:
            n = "gen-%s.cc" % h
            os.rename(os.path.join(d, "GeneratedCode.cc"), os.path.join(d, n))
            self.gens[h] = pmap(lambda a: compile_in(d, n, os.path.join(d, n + a[0]), a[1]), [(".o", pp.flags), (".d.o", pp.dec_flags)])
        return h

    def step(self, prog, srcs, names, changed, orders):
        """(problem or None, messages)"""
        d, lay, pp = self.d, self.lay, self.pp
        full = dict(prog)
        full["calls.cc"] = calls(names)
        lay.write(d, full)
        try:
            ref = lay.reference(d, srcs)
        except (CompileFailed, CheckError) as e:
            return "GENERATOR: " + str(getattr(e, "text", e))[:1500], 0
        x = run([ref, "t1", "e1", "-"], cwd=d, timeout=60)
        if x.timeout or x.rc != 0:
            return "GENERATOR: the reference fails with %s: %s" % (x.rc, summary(x.err)), 0
        exp = read_expect(open(os.path.join(d, "e1"), "rb").read())
        std = lay.std()[5:]

        def one(s):
            return s, compile_in(d, preprocess(d, s, s + ".map", std), os.path.join(d, s + ".pp.o"), pp.flags)
        try:
            for s in [s for s in orders[0] if s in changed]:        # in a generated order, one after the other
                self.objs[s] = one(s)[1]
            main = compile_in(d, "calls.cc", os.path.join(d, "calls.o"), pp.flags)
            objs = [self.objs[s] for s in srcs] + [main] + pp.objs
            hs = []
            for o in orders:
                h = self.gen(o)
                if h not in hs:
                    hs.append(h)
            exes = [(link(objs + [self.gens[h][0]], os.path.join(d, "prog-" + h)), link(pp.dobjs + [self.gens[h][1]], os.path.join(d, "dec-" + h))) for h in hs]
        except PreprocessFailed as e:
            return "the preprocessor rejects a valid program: " + e.text[-1200:], 0
        except CompileFailed as e:
            return "the generated code does not compile: " + e.text[:1500], 0
        except CheckError as e:
            return "the program does not link: " + str(e)[:1500], 0
        for n, (exe, _) in enumerate(exes):
            for f in ("log", "t2", "e2"):
                if os.path.exists(os.path.join(d, f)):
                    os.unlink(os.path.join(d, f))
            y = run([exe, "t2", "e2", "log"], cwd=d, timeout=60)
            if y.timeout or y.rc != 0:
                return "the program %s: %s" % ("hangs" if y.timeout else "fails with status %s" % y.rc, summary(y.err)), 0
            for m, (_, dec) in enumerate(exes):
                o = run([dec, "decompressUnordered", "log"], cwd=d, timeout=60)
                if o.timeout or o.rc != 0:
                    return "the log does not decompress: %s" % summary(o.err), 0
                c = compare(exp, o.out)
                if c:
                    return "message %d (program combined in order %s, decompressor in order %s): %s" % (c[0], orders[n], orders[m], c[1]), 0
        return None, len(exp)

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


FINDING = {
    "s0.cc": PRELUDE + "#line 10 \"main.cc\"\nvoid u0(int a, int b) { NANO_LOG(NOTICE, \"start %d\", a); }\n",
    "s1.cc": PRELUDE + "#line 10 \"main.cc\"\nvoid u1(int a, int b) { NANO_LOG(ERROR, \"start %d\", a); }\n",
}
FINDING_TEXT = "two sources compiled under one file name (main.cc), with the same format on the same line but different levels: all their messages are decoded with one of the levels"


def main():
    ctx = Ctx("P18")
    ctx.rules.append("a case is one build of a generated set of sources (first build, or an incremental rebuild after changing one source) in several combination orders, run and decoded with the decompressor of every distinct order; "
                     "non-trivial when at least two sources contribute and 20 messages are decoded; distinct by source text")
    ctx.assumptions += ["g++ is the compiler and preprocessor", "statements of different sources that share file name, line and (encoded) format have the same level and format (see known findings)"]
    variants = [("o0", ["-std=c++17", "-O0"]), ("o2", ["-std=c++11", "-O2", "-DNDEBUG"])]
    lays = [Lay(ctx, t, f) for t, f in variants]
    compile_many(sum((l.jobs for l in lays), []))
    n = 200 if ctx.thorough else 24
    stop, gens = [], []

    # The known finding, as recorded
    pr = Project(lays[0], "finding")
    bad, _ = pr.step(FINDING, ["s0.cc", "s1.cc"], {"s0.cc": ["u0"], "s1.cc": ["u1"]}, {"s0.cc", "s1.cc"}, [["s0.cc", "s1.cc"], ["s1.cc", "s0.cc"]])
    pr.close()
    ctx.count("finding", nontrivial=False)
    if bad and re.match(r"message \d+ .*: expected b'main.cc:10 (NOTICE|ERROR)\[0\]: start ", bad) and ctx.known(FINDING_TEXT):
        pass
    elif bad:
        stop.append((lays[0], [FINDING], ["s0.cc", "s1.cc"], bad))

    def case(i):
        if stop:
            return
        r = ctx.sub_rng("combine%d" % i)
        g = Gen(r, i)
        files = r.choice([1, 2, 2, 3, 3, 5])
        prog, srcs, names = g.program(files, r.choice([2, 4, 8]))
        pr = Project(lays[i % 2], "c%d" % i)
        try:
            changed = set(srcs)
            hist = []
            for step in range(r.choice([1, 2, 3])):
                if step:
                    s = r.choice(srcs)
                    f = srcs.index(s)
                    hdrs = re.findall(r'#include "(h\d+\.h)"', prog[s])
                    t, extra, nm = g.source(f, r.randrange(1, 6), hdrs)
                    prog = dict(prog)
                    prog[s] = t
                    prog.update(extra)
                    names = dict(names)
                    names[s] = nm
                    changed = {s}
                orders = [list(srcs)]
                for _ in range(3 if len(srcs) > 1 else 0):
                    o = list(srcs)
                    r.shuffle(o)
                    orders.append(o)
                if len(srcs) > 1:
                    orders.append(list(reversed(srcs)))
                if r.random() < .3:
                    orders.append(orders[-1] + [r.choice(srcs)])        # a map named twice
                hist.append((prog, dict(names), set(changed)))
                bad, msgs = pr.step(prog, srcs, names, changed, orders)
                if bad and bad.startswith("GENERATOR"):
                    gens.append((i, bad))
                    return
                ctx.count(tuple(sorted(prog.items())), nontrivial=msgs >= 20 and sum(1 for v in names.values() if v) > 1)
                for k, v in (("messages", msgs), ("log_statements", sum(t.count("NANO_LOG(") for t in prog.values())), ("combination_orders", len(orders)), ("incremental_rebuilds", 1 if step else 0)):
                    ctx.extra[k] = ctx.extra.get(k, 0) + v
                if i in (1, 4) and step == 0:
                    ctx.sample(prog[srcs[0]][-700:])
                if bad:
                    stop.append((lays[i % 2], hist, srcs, orders, bad))
                    return
        finally:
            pr.close()
    pmap(case, range(n), 5)
    if gens:
        raise CheckError("generated programs that are not valid C++: %s" % gens[:2])
    if stop:
        lay, hist, srcs, orders, bad = stop[0] if len(stop[0]) == 5 else (stop[0][0], [(FINDING, {"s0.cc": ["u0"], "s1.cc": ["u1"]}, set(stop[0][2]))], stop[0][2], [stop[0][2]], stop[0][3])
        cnt = [0]

        def attempt(h):
            cnt[0] += 1
            pr = Project(lay, "shrink%d" % cnt[0])
            try:
                for prog, names, changed in h:
                    b, _ = pr.step(prog, srcs, names, set(srcs) if prog is h[0][0] else changed, orders)
                    if b:
                        return None if b.startswith("GENERATOR") else b
                return None
            finally:
                pr.close()
        best = [hist, bad]
        b = attempt(hist[-1:])      # does the last state fail when built from scratch?
        if b:
            best = [hist[-1:], b]

            def fails(p):
                b = attempt([(p,) + hist[-1][1:]])
                if b:
                    best[0], best[1] = [(p,) + hist[-1][1:]], b
                return bool(b)
            reduce_lines(best[0][0][0], fails, lambda: cnt[0] < 70 and ctx.elapsed() < 600)
        if all(attempt(best[0]) for _ in range(2)):
            txt = "build %s\ncombination orders %s\nproblem %s\n" % (lay.flags, orders, best[1])
            for k, (p, nm, ch) in enumerate(best[0]):
                txt += "\n==== build %d\n" % k + "".join("\n---- %s\n%s" % x for x in sorted(p.items()) if k == 0 or x[0] in ch)
            ctx.violation(best[1] + "\n" + txt[:200], ctx.save_replay("program-%d.txt" % ctx.seed, txt))
        else:
            ctx.extra.setdefault("unconfirmed", []).append(bad)
    ctx.finish()


def reduce_lines(prog, fails, more):
    cur = dict(prog)
    for n in sorted(cur, key=lambda n: -len(cur[n])):
        k = 32
        while k >= 1:
            lines = cur[n].split("\n")
            j = 0
            while j < len(lines) and more():
                seg = lines[j:j + k]
                if any("NANO_LOG(" in l for l in seg) and not any(l.startswith(("#define LOG", "void ", "inline ", "template")) for l in seg):
                    cand = dict(cur)
                    # keep the number of lines: which line a statement is on matters
                    cand[n] = "\n".join(lines[:j] + ["" if "NANO_LOG(" in l else l for l in seg] + lines[j + k:])
                    if fails(cand):
                        cur = cand
                        lines = cur[n].split("\n")
                j += k
            k //= 4
    return cur


if __name__ == "__main__":
    main_wrapper(main)
