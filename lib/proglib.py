"""Generated logging programs: statements over the printf grammar, both flavours, checked against printf itself."""
import os, re, random, struct
import vlib
from vlib import *

LV = ["", "ERROR", "WARNING", "NOTICE", "DEBUG"]

SIGNED = {"": ["int", "int", "short", "char", "bool", "unsigned", "Enum"], "hh": ["signed char", "char", "int"], "h": ["short", "int"], "l": ["long"],
          "ll": ["long long"], "j": ["intmax_t"], "z": ["ssize_t", "size_t"], "t": ["ptrdiff_t"]}
UNSIGNED = {"": ["unsigned", "unsigned", "int", "unsigned short", "unsigned char", "char"], "hh": ["unsigned char", "char", "unsigned"], "h": ["unsigned short", "int"],
            "l": ["unsigned long", "long"], "ll": ["unsigned long long", "long long"], "j": ["uintmax_t"], "z": ["size_t", "ssize_t"], "t": ["ptrdiff_t", "size_t"]}
FLOAT = {"": ["double", "double", "float"], "l": ["double"], "L": ["ldouble"]}


def pool():
    """Every (conversion, length, width kind, precision kind)."""
    r = []
    for conv in "diuoxXfFeEgGaAcsp":
        lens = (SIGNED if conv in "di" else UNSIGNED if conv in "uoxX" else FLOAT if conv in "fFeEgGaA" else
                {"": 0, "l": 0} if conv in "cs" else {"": 0})
        for ln in lens:
            for w in ("", "n", "*"):
                for p in ("", ".", ".n", ".*"):
                    if conv in "cp" and p:
                        continue
                    r.append((conv, ln, w, p))
    return r


class Arg:
    def __init__(self, ctype, init):
        self.ctype, self.init = ctype, init


class Conv:
    def __init__(self, spec, args, kind):
        self.spec, self.args, self.kind = spec, args, kind


def make_conv(r, t, flavour, opts=()):
    conv, ln, w, p = t
    flags = {"d": "-+ 0", "i": "-+ 0", "u": "-0", "o": "-#0", "x": "-#0", "X": "-#0", "c": "-", "s": "-", "p": "-"}.get(conv, "-+ #0")
    fl = "".join(c for c in flags if r.random() < .25)
    if fl and r.random() < .05:
        fl += r.choice(fl)
    fl = "".join(r.sample(list(fl), len(fl)))
    args = []
    width = ""
    if w == "n":
        width = str(r.choice([1, 2, 5, 8, 10, 17, 40, 200, r.randrange(1, 64)]))
    elif w == "*":
        width = "*"
        args.append(Arg("int", "gv_width()"))
    prec = ""
    maxp = None
    if p == ".":
        prec, maxp = ".", "0"
    elif p == ".n":
        k = r.choice([0, 1, 3, 5, 6, 10, 20, r.randrange(0, 40)])
        prec, maxp = "." + (("0" if r.random() < .05 else "") + str(k)), str(k)
    elif p == ".*":
        prec = ".*"
        args.append(Arg("int", "gv_prec()"))
        maxp = "@PREC"
    spec = "%" + fl + width + prec + ln + conv
    if conv in "di":
        ty = r.choice(SIGNED[ln])
    elif conv in "uoxX":
        ty = r.choice(UNSIGNED[ln])
    elif conv in "fFeEgGaA":
        ty = r.choice(FLOAT[ln])
    elif conv == "c":
        ty = "wint_t" if ln == "l" else r.choice(["int", "char", "unsigned char", "signed char"])
    elif conv == "p":
        ty = r.choice(["void *", "const void *", "int *", "const char *", "char *", "const wchar_t *", "double **"])
    else:
        ty = "wstr" if ln == "l" else "str"
    if ty == "Enum":
        ty = "int" if flavour == "pp" else "GvEnum"
    if ty == "str" or ty == "wstr":
        ch = "wchar_t" if ty == "wstr" else "char"
        g = "gv_wstr" if ty == "wstr" else "gv_str"
        ro = r.random()
        if maxp is not None and ro < .5 and "noterm" in opts:
            init = "%sn(%s)" % (g, maxp)
        else:
            init = g + "()"
        c = r.random()
        if c < .15:
            lit = random_text(r, r.randrange(0, 12), wide=(ch == "wchar_t"))
            args.append(Arg("lit", ("L" if ch == "wchar_t" else "") + clit(lit)))
        elif c < .4:
            args.append(Arg(ch + " *", "(%s *)%s" % (ch, init)))
        else:
            args.append(Arg("const %s *" % ch, init))
    elif conv == "p":
        args.append(Arg(ty, "(%s)gv_ptr()" % ty))
    elif ty == "wint_t":
        args.append(Arg(ty, "gv_wc()"))
    elif ty == "GvEnum":
        args.append(Arg(ty, "(GvEnum)gv<int>()"))
    else:
        args.append(Arg(ty, "gv<%s >()" % ty))
    return Conv(spec, args, (conv, ln, w, p))


def random_text(r, n, wide=False, pct=False):
    out = []
    for _ in range(n):
        x = r.random()
        if x < .7:
            out.append(r.choice("abcdefghijklmnopqrstuvwxyzABCDXYZ0123456789 ,.;:!@#$^&*()-_=+[]{}<>/|~`'"))
        elif x < .8:
            out.append(r.choice(["\\", "\"", "\t", "\n", "'", "?", "\\n", "\\\\", "\r"]))
        elif x < .86 and pct:
            out.append("%%")
        elif x < .9 and not wide:
            out.append(chr(r.choice([0xe9, 0x3b1, 0x4e2d])))
        else:
            out.append(r.choice(["d", "s", "lu", " %% " if pct else "p", "(", ")", ","]))
    return "".join(out)


def clit(s, r=None, split=0.0):
    """C string literal for s (UTF-8 bytes as octal escapes or raw)."""
    out, cur = [], '"'
    esc = {"\\": "\\\\", '"': '\\"', "\n": "\\n", "\t": "\\t", "\r": "\\r", "\a": "\\a"}
    for c in s:
        if c in esc:
            cur += esc[c]
        elif " " <= c < "\x7f":
            cur += c
        else:
            cur += "".join("\\%03o" % b for b in c.encode())
        if r is not None and r.random() < split:
            out.append(cur + '"')
            cur = '"'
    out.append(cur + '"')
    return " ".join(out)


class Stmt:
    """One log statement: parts are literal texts and Convs."""

    def __init__(self, lvl, parts, ctx=0):
        self.lvl, self.parts, self.ctx = lvl, parts, ctx

    def fmt(self):
        return "".join(p.spec if isinstance(p, Conv) else p for p in self.parts)

    def convs(self):
        return [p for p in self.parts if isinstance(p, Conv)]

    def source(self, name, r, flavour):
        decl, names = [], []
        last = None
        for c in self.convs():
            for a in c.args:
                if a.ctype == "lit":
                    names.append(a.init)
                    continue
                v = "a%d" % len(names)
                decl.append("  %s %s = %s;" % (a.ctype, v, a.init.replace("@PREC", last or "-1")))
                names.append(v)
                last = v
        f = clit(self.fmt(), r, 0.03)
        args = "".join(", " + n for n in names)
        body = decl + ["  const int line = __LINE__ + 2;",
                       "  gv_expect(NanoLog::LogLevels::%s, __FILE__, line, %s%s);" % (LV[self.lvl], f, args),
                       "  NANO_LOG(%s, %s%s);" % (LV[self.lvl], f, args)]
        if self.ctx == 1 and flavour == "cpp17":
            return ["template<typename GvT> void %s_t() {" % name] + body + ["}", "void %s() { if (gv_bits() & 1) %s_t<int>(); else %s_t<char>(); }" % (name, name, name)]
        if self.ctx == 2:
            return ["void %s() {" % name, "  auto f = [&]() {"] + body + ["  };", "  f();", "}"]
        if self.ctx == 3:
            return ["namespace { struct S_%s { void run() const {" % name] + body + ["} }; }", "void %s() { S_%s().run(); }" % (name, name)]
        return ["void %s() {" % name] + body + ["}"]


def gen_stmts(r, n, flavour, opts=(), p=None):
    p = p if p is not None else pool()
    bag = []
    out = []
    # a few statements with literals around and beyond the sizes where readers of the dictionary switch buffers
    longs = {}
    if n > 20:
        for m in (30, 400, r.randrange(700, 900), r.randrange(1500, 1700), r.randrange(1000, 4000)):
            longs[r.randrange(n)] = m
    for k in range(n):
        nc = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12])
        if r.random() < .02:
            nc = r.randrange(16, 40)
        parts = []
        dense = r.random() < .2
        for i in range(nc):
            if not bag:
                bag = list(p)
                r.shuffle(bag)
            if not dense or r.random() < .2:
                parts.append(random_text(r, r.choice([0, 1, 1, 3, 6, 12]), pct=True))
            elif r.random() < .3:
                parts.append(r.choice([" ", "%%", "\\", "d", "%%%%"]))
            parts.append(make_conv(r, bag.pop(), flavour, opts))
        parts.append(random_text(r, r.choice([0, 0, 1, 4, 10, 40]), pct=True))
        if k in longs:
            parts.insert(r.choice([0, len(parts)]), "long literal " * longs[k])
        out.append(Stmt(r.randrange(1, 5), parts, r.choice([0, 0, 0, 1, 2, 3])))
    return out


HEADER = {"cpp17": "NanoLogCpp17.h", "pp": "NanoLog.h"}


def write_program(d, stmts, r, flavour, files=8, fname=None, only=None):
    """Write the sources; returns list of paths (statement files, then the table)."""
    os.makedirs(d, exist_ok=True)
    texts = [["#include \"%s\"" % HEADER[flavour], "#include \"gv.h\"", "#include <sys/types.h>", "using namespace NanoLog::LogLevels;",
              "enum GvEnum : int { GV_ZERO };"] for _ in range(files)]
    names = []
    for k, s in enumerate(stmts):
        nm = "st_%d" % k
        names.append(nm)
        texts[k % files] += [""] * r.randrange(3) + s.source(nm, r, flavour)
    paths = []
    for i, t in enumerate(texts):
        nm = fname(i) if fname else "prog%d.cc" % i
        p = os.path.join(d, nm)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write("\n".join(t) + "\n")
        paths.append(nm)
    with open(os.path.join(d, "table.cc"), "w") as f:
        f.write("#include \"gv.h\"\n" + "".join("void %s();\n" % x for x in names) +
                "GvFn gvTable[] = {%s};\nextern const int gvCount = %d;\n" % (", ".join(names), len(names)))
    return paths


class CompileFailed(Exception):
    def __init__(self, path, text):
        self.path, self.text = path, text


def compile_in(d, src, obj, flags):
    """Compile src (relative to d, so that __FILE__ is what was generated)."""
    r = run(cxx() + ["-w", "-I", vlib.RT, "-I", HARNESS] + list(flags) + ["-c", src, "-o", obj], cwd=d, timeout=600)
    if r.timeout or r.rc != 0:
        raise CompileFailed(src, r.err.decode(errors="replace"))
    return obj


class Lib17:
    """C++17 flavour library objects + driver, built once per flag set."""

    def __init__(self, ctx, tag, flags, main="gvmain.cc"):
        self.ctx, self.flags, self.tag = ctx, list(flags), tag
        jobs, objs = lib_jobs(ctx, "p17-" + tag, self.flags, srcs=["Cycles.cc", "Util.cc", "Log.cc", "NanoLog.cc", "RuntimeLogger.cc"])
        d = os.path.dirname(objs[0])
        for s, fl in (("gv.cc", []), (main, ["-DGV_HEADER=\"NanoLogCpp17.h\""])):
            o = os.path.join(d, s + ".o")
            jobs.append((os.path.join(HARNESS, s), o, self.flags + fl))
            objs.append(o)
        self.jobs, self.objs = jobs, objs

    def build(self, d, srcs, out):
        objs = pmap(lambda s: compile_in(d, s, os.path.join(d, s.replace("/", "_") + "." + self.tag + ".o"), self.flags), srcs + ["table.cc"])
        san = [f for f in self.flags if f.startswith("-fsanitize")]
        return link(objs + self.objs, out, san)


def read_expect(data):
    out, pos = [], 0
    while pos < len(data):
        e = data.index(b"\n", pos)
        lvl, line, fl, n = (int(x) for x in data[pos:e].split())
        e += 1
        out.append((lvl, line, data[e:e + fl], data[e + fl:e + fl + n]))
        pos = e + fl + n + 1
    return out


TS = re.compile(rb"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{9} ")


def compare(exp, dec, tid=None):
    """None, or (index, description) of the first difference between the expected messages and the decoded text."""
    pos = 0
    if tid is None:         # one logging thread: whatever its id is, it is the same throughout
        m = re.match(rb"[^\r\n]*?[A-Z]\[(\d+)\]: ", dec)
        tid = m.group(1) if m else b"?"
    for i, (lvl, line, fn, text) in enumerate(exp):
        want = fn + b":" + str(line).encode() + b" " + LV[lvl].encode() + b"[" + tid + b"]: " + text + b"\r\n"
        m = TS.match(dec, pos)
        if not m:
            return i, "expected a message %r, decoded %r" % (want[:300], dec[pos:pos + 300])
        if not dec.startswith(want, m.end()):
            got = dec[m.end():m.end() + len(want) + 40]
            return i, "expected %r, decoded %r" % (want[:600], got[:600])
        pos = m.end() + len(want)
    rest = dec[pos:]
    if not re.fullmatch(rb"(\r\n)*# Decompression Complete after printing %d log messages\r\n" % len(exp), rest):
        return len(exp), "after the last message: decoded %r" % rest[:300]
    return None


def stmt_map(d, srcs):
    """(file, line) of every log statement -> statement number."""
    out = {}
    for s in srcs:
        cur = None
        with open(os.path.join(d, s), errors="replace") as f:
            for n, l in enumerate(f, 1):
                m = re.search(r"(?<![a-z0-9])st_(\d+)", l)
                if m:
                    cur = int(m.group(1))
                if l.lstrip().startswith("NANO_LOG("):
                    out[(s, n)] = cur
    return out


def exercise(exe, decs, d, seed, rounds, big=0, timeout=300):
    """Run a built program and decode its log. Returns (problem or None, (file, line) or None, expectations)."""
    log, ex = os.path.join(d, "log-%s" % seed), os.path.join(d, "exp-%s" % seed)
    for p in (log, ex):
        if os.path.exists(p):
            os.unlink(p)
    x = run([exe, log, ex, str(seed), str(rounds), "-1", str(big)], cwd=d, timeout=timeout)
    try:
        with open(ex, "rb") as f:
            data = f.read()
    except OSError:
        data = b""
    try:
        e = read_expect(data)
    except (ValueError, IndexError):
        e = []
    try:
        if x.timeout or x.rc != 0:
            return ("the logging program %s: %s" % ("hangs" if x.timeout else "fails with status %s" % x.rc, summary(x.err)),
                    (e[-1][2].decode(), e[-1][1]) if e else None, e)
        for dec, mode in decs:
            o = run([dec, mode, log], cwd=d, timeout=timeout)
            if o.timeout:
                return "%s does not terminate" % mode, None, e
            c = compare(e, o.out)
            if c:
                i, what = c
                return ("%s: %s%s" % (mode, what, "" if o.rc == 0 else " (status %s: %s)" % (o.rc, summary(o.err))),
                        (e[i][2].decode(), e[i][1]) if i < len(e) else None, e)
            if o.rc != 0:
                return "%s exits with status %s: %s" % (mode, o.rc, summary(o.err)), None, e
        return None, None, e
    finally:
        for p in (log, ex):
            if os.path.exists(p):
                os.unlink(p)


def summary(err):
    t = err.decode(errors="replace")
    m = re.search(r"ERROR: AddressSanitizer.*", t)
    return (m.group(0) + " " if m else "") + t.strip()[-300:]


def minimize(stmts, fails, budget=14):
    """Greedily drop statements' parts while fails(list of Stmt) stays true."""
    cur = list(stmts)
    n = 0
    changed = True
    while changed and n < budget:
        changed = False
        for si, s in enumerate(cur):
            k = max(1, len(s.parts) // 2)
            while k >= 1 and n < budget:
                i = 0
                while i < len(s.parts) and n < budget:
                    if len(s.parts) <= 1:
                        break
                    cand = Stmt(s.lvl, s.parts[:i] + s.parts[i + k:], 0)
                    n += 1
                    if fails(cur[:si] + [cand] + cur[si + 1:]):
                        s = cand
                        cur = cur[:si] + [cand] + cur[si + 1:]
                        changed = True
                    else:
                        i += k
                k //= 2
    return cur


# ---- the preprocessor flavour ------------------------------------------------------
class PreprocessFailed(Exception):
    def __init__(self, path, text):
        self.path, self.text = path, text


def preprocess(d, src, mapf, std="c++17", env=None):
    """-E and parser.py as NanoLogMakeFrag does; returns the .ii file (relative to d)."""
    r = run(["g++", "-include", "array", "-E", "-I", vlib.RT, "-I", HARNESS, src, "-o", src + ".i", "-std=" + std], cwd=d, timeout=120)
    if r.rc != 0:
        raise CompileFailed(src, r.err.decode(errors="replace"))
    p = run(["python", os.path.join(PP, "parser.py"), "--mapOutput=" + mapf, src + ".i"], cwd=d, timeout=300, env=env)
    if p.timeout or p.rc != 0 or not os.path.exists(os.path.join(d, src + ".ii")):
        raise PreprocessFailed(src, (p.out + p.err).decode(errors="replace"))
    return src + ".ii"


class LibPP:
    """Preprocessor flavour: library objects and driver, shared by the programs of one flag set."""

    def __init__(self, ctx, tag, flags, dec_flags=None, main="gvmain.cc"):
        self.ctx, self.tag = ctx, tag
        self.flags = list(flags)
        self.dec_flags = list(dec_flags or ["-std=c++17", "-O1", "-g"])
        lf = ["-DPREPROCESSOR_NANOLOG"]
        jobs, objs = lib_jobs(ctx, "ppl-" + tag, self.flags + lf, srcs=["Cycles.cc", "Util.cc", "Log.cc", "NanoLog.cc", "RuntimeLogger.cc"], generated=False)
        d = os.path.dirname(objs[0])
        for s, fl in (("gv.cc", []), (main, ["-DGV_HEADER=\"NanoLog.h\""])):
            o = os.path.join(d, s + ".o")
            jobs.append((os.path.join(HARNESS, s), o, self.flags + fl))
            objs.append(o)
        djobs, dobjs = lib_jobs(ctx, "ppd-" + tag, self.dec_flags + lf, srcs=["Cycles.cc", "Util.cc", "Log.cc"], generated=False)
        o = os.path.join(os.path.dirname(dobjs[0]), "LogDecompressor.o")
        djobs.append((os.path.join(vlib.RT, "LogDecompressor.cc"), o, self.dec_flags + lf))
        self.jobs, self.objs, self.dobjs = jobs + djobs, objs, dobjs + [o]

    def build(self, d, srcs, out, maps_order=None, pre_order=None, plain=("table.cc",)):
        """Returns (program, decompressor)."""
        std = next((f[5:] for f in self.flags if f.startswith("-std=")), "c++17")

        def one(s):
            ii = preprocess(d, s, s + ".map", std)
            return compile_in(d, ii, os.path.join(d, s.replace("/", "_") + "." + self.tag + ".o"), self.flags)
        objs = pmap(one, srcs)
        objs += [compile_in(d, s, os.path.join(d, s + "." + self.tag + ".o"), self.flags) for s in plain]
        maps = [s + ".map" for s in (maps_order or srcs)]
        gen = self.combine(d, maps, "GeneratedCode.cc")
        san = [f for f in self.flags if f.startswith("-fsanitize")]
        dsan = [f for f in self.dec_flags if f.startswith("-fsanitize")]
        g1, g2 = pmap(lambda a: compile_in(d, gen, os.path.join(d, a[0]), a[1]),
                      [("gen.%s.o" % self.tag, self.flags), ("gend.%s.o" % self.tag, self.dec_flags)])
        return link(objs + self.objs + [g1], out, san), link(self.dobjs + [g2], out + "-dec", dsan)

    def combine(self, d, maps, name):
        p = run(["python", os.path.join(PP, "parser.py"), "--combinedOutput=" + name] + maps, cwd=d, timeout=300)
        if p.timeout or p.rc != 0 or not os.path.exists(os.path.join(d, name)):
            raise PreprocessFailed(name, (p.out + p.err).decode(errors="replace"))
        return name
