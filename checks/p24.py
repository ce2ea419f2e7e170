#!/usr/bin/env python3
"""P24: log statements that cannot be logged as written are reported when the program is built, at their own file and line."""
import os, sys, re, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from layout import *
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import p19

MARK = "qqBADqq"

# What may stand in place of a valid statement; {m} is replaced by the marker (so that it can be found again).
BROKEN = {
    "no format": ['NANO_LOG\1(\1{m}\1)\1;', 'NANO_LOG\1(\1NOTICE + 0 * {m}\1)\1;'],
    "not a literal": ['NANO_LOG\1(\1NOTICE\1,\1{m}\1)\1;', 'NANO_LOG\1(\1NOTICE\1,\1{m}\1,\1a\1)\1;', 'NANO_LOG\1(\1NOTICE\1,\1(a\1?\1"x"\1:\1"{m}")\1)\1;', 'NANO_LOG\1(\1ERROR\1,\1"x"\1+\1{m}\1)\1;',
                      'NANO_LOG\1(\1NOTICE\1,\1&"{m}"[1]\1)\1;', 'NANO_LOG\1(\1DEBUG\1,\1"a"\1{m}\1"b %d"\1,\1a\1)\1;', 'NANO_LOG\1(\1NOTICE\1,\1{m}("x %d")\1,\1b\1)\1;', 'NANO_LOG\1(\1NOTICE\1,\1{m}\1"x"\1)\1;',
                      'NANO_LOG\1(\1NOTICE\1,\1std::string("{m}").c_str()\1)\1;', 'NANO_LOG\1(\1NOTICE\1,\0011\1,\1"{m}"\1)\1;', 'NANO_LOG\1(\1NOTICE\1,\1\'{m}\'\1)\1;', 'NANO_LOG\1(\1"{m} %d"\1,\1a\1)\1;'],
    "unsupported conversion": ['NANO_LOG\1(\1NOTICE\1,\1"{m}{f}"\1)\1;', 'NANO_LOG\1(\1NOTICE\1,\1"{f}{m}"\1,\1a\1)\1;', 'NANO_LOG\1(\1WARNING\1,\1"%d "\1"{f}"\1"\\\\ {m}"\1,\1a,\1b\1)\1;'],
    "no semicolon": ['NANO_LOG\1(\1NOTICE\1,\1"{m} %d"\1,\1a\1)\1 T(4);', 'NANO_LOG\1(\1NOTICE\1,\1"{m}"\1)\1{\1;\1}', '(NANO_LOG\1(\1NOTICE\1,\1"{m}"\1))\1;', 'NANO_LOG\1(\1NOTICE\1,\1"{m} %d"\1,\1a\1)\1,\1T(3);'],
}
UNSUPPORTED = ["%n", "%hhn", "%5%d", "%Ld", "%lls", "%hlld", "%m", "%S", "%", "%1$d", "%.5.2f", "%hs", "%y", "%qd", "%lp", "%- n", "%*.*n", "%ln", "%d%n", "%%%n", "%C", "%hp", "%llc", "%hc"]


class Bad(Layout):
    """A layout in which the target-th log statement is replaced by a broken one."""
    target = -1

    def log(self):
        n = self.logs
        s = super().log()
        if n == self.target and MARK not in s:
            self.hit = True
            return self.broken
        return s


def broken(r):
    kind = r.choice(sorted(BROKEN))
    t = r.choice(BROKEN[kind])
    f = r.choice(UNSUPPORTED) if r.random() < .5 else None
    while not f:
        f = p19.gen_format(r)
        if p19.grammar(f) is not None or "\u00e9" in f or MARK in f or f.endswith("%"):
            f = None
    return kind, "/*@B*/" + t.replace("{f}", f).replace("{m}", MARK) + "/*@E*/"


def expected_line(text):
    """(file, line) of the log call that has the marker in it, from the line markers of the preprocessed text."""
    at = text.index(MARK)
    at = max(m.start() for m in re.finditer(r"(?<![A-Za-z_0-9])NANO_LOG(\s|^# \d+ .*$)*\(", text[:at], re.M))
    head = text[:at].split("\n")
    name, line = None, 0
    for l in head:
        m = re.match(r'# (\d+) "((?:[^"\\]|\\.)*)"', l)
        if m:
            name, line = m.group(2), int(m.group(1))
        else:
            cur, line = line, line + 1
    return name, cur


def parse(d, src):
    """(exit status, output, .i text) of the preprocessor on src."""
    r = run(["g++", "-include", "array", "-E", "-I", vlib.RT, "-I", HARNESS, "-I", ".", src, "-o", src + ".i", "-std=c++17"], cwd=d, timeout=120)
    if r.rc != 0:
        raise CheckError("g++ -E fails on a generated source: %s" % r.err.decode(errors="replace")[:800])
    p = run(["python3", "-W", "ignore", os.path.join(PP, "parser.py"), "--mapOutput=" + src + ".map", src + ".i"], cwd=d, timeout=300)
    return (None if p.timeout else p.rc), (p.out + p.err).decode(errors="replace"), open(os.path.join(d, src + ".i"), encoding="utf-8", newline="").read().replace("\r\n", "\n")


def check_refused(rc, out, name, line, what):
    if rc is None:
        return "the preprocessor hangs on a statement with %s" % what
    if rc == 0:
        return "the preprocessor accepts a statement with %s (%s:%d)" % (what, name, line)
    if "Traceback" in out:
        return "the preprocessor crashes on a statement with %s (%s:%d): %s" % (what, name, line, out.strip().split("\n")[-1])
    m = re.search(r"^(.*?):(\d+):\s*Error", out.replace("\r", ""), re.M)
    if not m:
        return "the preprocessor refuses a statement with %s (%s:%d) without saying where: %s" % (what, name, line, out.strip()[:300])
    if (m.group(1), int(m.group(2))) != (name, line):
        return "the preprocessor reports a statement with %s as %s:%s, it is at %s:%d" % (what, m.group(1), m.group(2), name, line)
    return None


def gen_source(ctx, i):
    """(source with a broken statement, the same with a valid one, kind)"""
    for attempt in range(50):
        seed = "bad%d-%d" % (i, attempt)
        units = ctx.sub_rng(seed + "u").choice([1, 2, 4, 8])
        total = []

        def text(target, stmt):
            r = ctx.sub_rng(seed)
            lay = Bad(r, Ids(), raw=i % 3 == 0)
            lay.target, lay.broken, lay.hit = target, stmt, False
            t = PRELUDE
            for k in range(units):
                if r.random() < .2:
                    t += "#line %d \"%s\"\n" % (r.choice([1, 500, 77777]), r.choice(["other.cc", "dir/gen.y", "f.cc"]))
                t += r.choice(["", "\n", "// NANO_LOG(NOTICE, \"no\");\n", "/* it's \" */\n"]) + render(r, lay.unit("u%d" % k)) + "\n"
            total.append(lay.logs)
            return t, lay.hit
        good, _ = text(-1, "")
        r = ctx.sub_rng(seed + "b")
        n = total[0]
        if not n:
            continue
        kind, b = broken(r)
        bad, hit = text(r.randrange(n), b)
        if hit and bad.count(MARK) == 1 and total[1] == n:
            return bad, good, kind
    raise CheckError("no program with a broken statement could be generated")


def refused_case(ctx, i):
    bad, good, kind = gen_source(ctx, i)
    d = os.path.join(ctx.build, "b%d" % i)
    os.makedirs(d, exist_ok=True)
    try:
        for nm, t in (("f.cc", bad), ("g.cc", good)):
            with open(os.path.join(d, nm), "w", encoding="utf-8", newline="") as f:
                f.write(t)
        rc, out, text = parse(d, "f.cc")
        if MARK not in text:
            return None, 0, bad, kind
        name, line = expected_line(text)
        p = check_refused(rc, out, name, line, kind)
        if not p:
            rc, out, _ = parse(d, "g.cc")
            if rc != 0:
                p = "the preprocessor refuses a valid program: %s" % out.strip()[-300:]
                bad = good
        return p, 1, bad, kind
    finally:
        shutil.rmtree(d, ignore_errors=True)


def header_case(ctx, i):
    """Statements that come before the header of NanoLog, or without one."""
    r = ctx.sub_rng("hdr%d" % i)
    pre = ["// c", "", "int z%d;" % i, "const char *s = \"NANO_LOG(NOTICE, \\\"no\\\");\";", "#line %d \"x.cc\"" % r.randrange(1, 999), "extern int NANO_LOGx;", "#include \"lay.h\"", "struct Q { int q; };"]
    lines = [r.choice(pre) for _ in range(r.randrange(6))]
    lines = [l for k, l in enumerate(lines) if l.startswith(("//", "#")) or l not in lines[:k]]
    lines += ["void f(int a, int b) {"] + ["    a++;"] * r.randrange(3) + ["    " + render(r, "NANO_LOG\1(\1NOTICE\1,\1\"" + MARK + " %d\"\1,\1a\1)\1;"), "}"]
    if r.random() < .5:
        lines += ['#include "NanoLog.h"', "void g(int a) {", '    NANO_LOG(NanoLog::NOTICE, "fine %d", a);', "}"]
    d = os.path.join(ctx.build, "h%d" % i)
    os.makedirs(d, exist_ok=True)
    try:
        src = "\n".join(lines) + "\n"
        with open(os.path.join(d, "f.cc"), "w", encoding="utf-8", newline="") as f:
            f.write(src)
        rc, out, text = parse(d, "f.cc")
        return check_refused(rc, out, *expected_line(text), "no NanoLog header before it"), 1, src, "no header"
    finally:
        shutil.rmtree(d, ignore_errors=True)


VALS = {"const char*": ['"s"', "s"], "const wchar_t*": ['L"w"', "w"], "double": ["1.5", "f"], "long double": ["2.5L"], "const void*": ["(const void *)s", "v"], "wint_t": ["(wint_t)65"]}


def gen_args(r, g):
    """[(argument text, C type)]"""
    out = []
    for t, w, p in g:
        if w:
            out.append(("7", "int"))
        if p == "*":
            out.append(("3", "int"))
        out.append((r.choice(VALS.get(t, ["(%s)1" % t])), t))
    return out


def spoil(r, args, cpp17):
    """Arguments that do not fit, and what is wrong with them."""
    a = [x for x, _ in args]
    k = r.random()
    if k < .25 or not args:
        a.insert(r.randrange(len(a) + 1), r.choice(["1", '"s"', "2.5"]))
        if len(args) and r.random() < .3:
            a.append("3")
        return a, "too many arguments"
    if k < .5:
        for _ in range(r.choice([1, 1, len(a)])):
            if a:
                a.pop(r.randrange(len(a)))
        return a, "too few arguments"
    j = r.randrange(len(a))
    t = args[j][1]
    if t in ("const char*", "const wchar_t*"):
        a[j] = r.choice(["1", "a", "(const %s *)0" % ("int" if t[6] == "c" else "char"), "f"])
    elif t == "const void*":
        a[j] = r.choice(["1", "a", "f"])
    elif cpp17 and r.random() < .6:
        a[j] = {"int": "1L", "double": "1", "long double": "1.5"}.get(t, "1.5")
    else:
        a[j] = r.choice(["s", '"x"', "v"])
    return a, "an argument of another type"


def fits_case(ctx, i):
    """One function of log statements, some with arguments that do not fit: exactly those are diagnosed."""
    r = ctx.sub_rng("fit%d" % i)
    cpp17 = i % 2 == 1
    lines = ["#include <stdint.h>", "#include <stddef.h>", "#include <wchar.h>", '#include "%s"' % ("NanoLogCpp17.h" if cpp17 else "NanoLog.h"), "using namespace NanoLog::LogLevels;"]
    if r.random() < .4:
        lines.append('#line %d "gen.y"' % r.randrange(10, 5000))
    base = len(lines)
    bad, stmts = {}, r.choice([1, 4, 12, 24])
    lines.append("void f(int a, const char *s, const wchar_t *w, const void *v, double f) {")
    for k in range(stmts):
        while True:
            f = p19.gen_format(r)
            g = p19.grammar(f)
            # gcc warns about flags without effect and about lengths it does not know
            if f and g is not None and g != "skip" and "\u00e9" not in f and not re.search(r"%[-+ #0]*[-+ #0][*\d]*(\.[*\d]*)?(hh|h|ll|l|j|z|t|L)?[a-zA-Z]", f.replace("%%", "")) and not re.search(r"%[^%a-zA-Z]*[lL]?[cp]", re.sub(r"%%", "", f)) and len(f) < 200:
                break
        args = gen_args(r, g)
        text, why = [x for x, _ in args], None
        if r.random() < .35:
            text, why = spoil(r, args, cpp17)
        lines.append("    NANO_LOG(%s, \"%s\"%s);" % (r.choice(["NOTICE", "ERROR"]), f, "".join(", " + x for x in text)))
        if why:
            bad[len(lines)] = (why, lines[-1].strip())
    lines.append("}")
    name, first = "f.cc", 1
    if lines[base - 1].startswith("#line"):
        name, first = "gen.y", int(lines[base - 1].split()[1]) - base
    d = os.path.join(ctx.build, "fit%d" % i)
    os.makedirs(d, exist_ok=True)
    src = "\n".join(lines) + "\n"
    try:
        with open(os.path.join(d, "f.cc"), "w", encoding="utf-8", newline="") as f:
            f.write(src)
        fl = ["-std=c++17", "-fsyntax-only", "-fdiagnostics-color=never", "-fmax-errors=0", "-Wno-format-zero-length", "-I", vlib.RT]
        if cpp17:
            o = run(cxx() + fl + ["-Wformat", "f.cc"], cwd=d, timeout=300)
        else:
            rc, out, _ = parse(d, "f.cc")
            if rc != 0:
                return "the preprocessor refuses statements with valid formats: %s" % out.strip()[-400:], 1, src, "arguments"
            o = run(cxx() + fl + ["f.cc.ii"], cwd=d, timeout=300)
        if o.timeout:
            raise CheckError("the compiler does not finish")
        err = o.err.decode(errors="replace")
        where = "C++17" if cpp17 else "preprocessed"
        seen = {}
        for m in re.finditer(r"^%s:(\d+):(?:\d+:)? (?:fatal )?(error|warning): (.*)$" % re.escape(name), err, re.M):
            seen.setdefault(int(m.group(1)), (m.group(2), m.group(3)))
        for no, (why, stmt) in bad.items():
            want = no + first - 1
            if want not in seen or (not cpp17 and seen[want][0] != "error"):
                return "the %s program is not diagnosed for a statement with %s (%s:%d): %s" % (where, why, name, want, stmt), 1, src, "arguments"
            seen.pop(want)
        if seen:
            l = min(seen)
            return "the %s program is diagnosed at a valid statement, %s:%d: %s: %s" % (where, name, l, lines[l - first].strip(), seen[l][1][:300]), 1, src, "arguments"
        if not bad and o.rc != 0:
            return "the %s program of valid statements does not compile: %s" % (where, err[:400]), 1, src, "arguments"
        return None, stmts, src, "arguments"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ctx = Ctx("P24")
    ctx.rules.append("a case is a generated program with one broken log statement among other code, given to the preprocessor together with its unbroken original, or a function of log statements some of whose arguments do not fit, "
                     "given to the compiler in either flavour; non-trivial when at least one statement is broken; distinct by source text")
    ctx.assumptions += ["the compiler's format warnings (-Wformat) are on in the C++17 flavour", "arguments that convert implicitly to what the format wants are valid in the preprocessor flavour"]
    n = (2500, 300, 1500) if ctx.thorough else (220, 40, 130)
    jobs = [(refused_case, i) for i in range(n[0])] + [(header_case, i) for i in range(n[1])] + [(fits_case, i) for i in range(n[2])]
    ctx.sub_rng("order").shuffle(jobs)
    found = []

    def one(j):
        if found:
            return
        fn, i = j
        bad, units, src, kind = fn(ctx, i)
        if not units:
            return
        ctx.count(src, nontrivial=True)
        key = "cases: " + kind
        ctx.extra[key] = ctx.extra.get(key, 0) + 1
        if i in (3, 4):
            ctx.sample(src[-600:])
        if bad:
            found.append((len(src), fn, i, bad, src))
    pmap(one, jobs, 7)
    if found:
        _, fn, i, bad, src = min(found, key=lambda x: x[0])
        if all(fn(ctx, i)[0] for _ in range(2)):
            src = shrink(ctx, fn, src, bad)
            ctx.violation(bad, ctx.save_replay("statement-%d.txt" % ctx.seed, "%s\n\n---- source\n%s" % (bad, src)))
        else:
            ctx.extra.setdefault("unconfirmed", []).append(bad)
    ctx.finish()


def shrink(ctx, fn, src, bad):
    """Deletes lines while the preprocessor still mistreats the marked statement in the same way."""
    if fn is not refused_case:
        return src
    d = os.path.join(ctx.build, "shrink")
    os.makedirs(d, exist_ok=True)
    key = re.sub(r"[\w./]+:\d+", "@", bad)[:60]

    def fails(t):
        if MARK not in t or "/*@B*/" not in t or "/*@E*/" not in t:
            return False
        # what is around the statement has to stay valid
        with open(os.path.join(d, "v.cc"), "w", encoding="utf-8", newline="") as f:
            f.write(re.sub(r"(?s)/\*@B\*/.*/\*@E\*/", ";", t))
        if run(["g++", "-include", "array", "-include", "layref.h", "-fsyntax-only", "-std=c++17", "-I", vlib.RT, "-I", HARNESS, "v.cc"], cwd=d, timeout=120).rc != 0:
            return False
        with open(os.path.join(d, "f.cc"), "w", encoding="utf-8", newline="") as f:
            f.write(t)
        try:
            rc, out, text = parse(d, "f.cc")
            if MARK not in text:
                return False
            b = check_refused(rc, out, *expected_line(text), bad.split(" with ")[1].split(" (")[0] if " with " in bad else "x")
        except (CheckError, ValueError):
            return False
        return bool(b) and re.sub(r"[\w./]+:\d+", "@", b)[:60] == key
    lines, k, left = src.split("\n"), 32, 120
    while k and left > 0:
        j = 0
        while j < len(lines) and left > 0:
            left -= 1
            cand = lines[:j] + lines[j + k:]
            if fails("\n".join(cand)):
                lines = cand
            else:
                j += k
        k //= 2
    return "\n".join(lines)


if __name__ == "__main__":
    main_wrapper(main)
