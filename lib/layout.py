"""Generated C++ programs with log statements in every kind of place, for the preprocessor flavour (P16, P18)."""
from proglib import *

# Placeholders in generated text: \1 optional white space, \2 mandatory white space, \3 a new line, \4..\5 text that has to
# stay on one line.
COMMENTS = ["/* c */", "/* NANO_LOG(NOTICE, \"no\"); */", "/* it's */", "/* \" */", "/* ( */", "// NANO_LOG(DEBUG, \"no %d\", 1);\n", "// it's \"\n", "/* two\n   lines */", "/* \\ */", "// \\\\ NANO_LOG(\n"]


def render(r, s, plain=False):
    out, one = [], 0
    for c in s:
        if c == "\4":
            one += 1
        elif c == "\5":
            one -= 1
        elif c in "\1\2":
            x = r.random()
            if plain or x < .62:
                out.append(" " if c == "\2" else r.choice(["", "", " "]))
            elif x < .7:
                out.append(r.choice(["  ", "\t", " \t "]))
            elif x < .78:
                k = r.choice(COMMENTS)
                out.append(" " + ("/* NANO_LOG( */" if one else k) + " ")
            elif one:
                out.append(" ")
            else:
                out.append(r.choice(["\n", "\n    ", "\n\n", "\r\n" if False else "\n", "\n\n\n\n\n\n\n\n\n\n" if x > .985 else "\n  "]))
        elif c == "\3":
            out.append("\n")
        else:
            out.append(c)
    return "".join(out)


ALMOST = ["n9NANO_LOG", "x0NANO_LOG", "ZNANO_LOG", "__NANO_LOG", "a_NANO_LOG", "NANO_NANO_LOG", "NANO_LOGNANO_LOG", "nano5_2NANO_LOG", "NANO_LOG0", "NANO_LOG9x", "NANO_LOGa", "NANO_LOGZ", "NANO_LOG__", "NANO_LO",
          "ANO_LOG", "Nano_Log", "NANO_LOG_NANO_LOG", "NANO_LOGGER", "MY_NANO_LOG", "_NANO_LOG", "NANO_LOG_", "NANO_LOG2", "NNANO_LOG"]


class Ids:
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return self.n


STRS = ["", "x", "plain text", "a\\\"b", "NANO_LOG(NOTICE, \\\"no\\\");", "NANO_LOG(", "it's", "(", "))", "{,", "back\\\\", "\\\\\\\"", "// no", "/* no", "\\t", "%", "caf\u00e9", "'", "#", "\\n# 7 \\\"zz\\\"", ";", "a, b"]


class Layout:
    """raw: raw string literals allowed; levels: log level spellings."""

    def __init__(self, r, ids, raw=False):
        self.r, self.id, self.raw = r, ids, raw
        self.logs = 0
        self.nest = 2

    # -- expressions
    def e_int(self):
        r = self.r
        k = self.id()
        if self.nest and r.random() < .08:
            self.nest -= 1
            s = "[&](int a,\1int b)\1{\1%s\1return a;\1}(a,\1b)" % self.log()
            self.nest += 1
            return s
        return r.choice([
            "E(%d,\1a)" % k, "a", "b\1+\1E(%d, %d)" % (k, r.randrange(-9, 99)), "(a,\1b)", "[&](int x)\1{\1return x + a;\1}(3)", "f2<int,\1char>(a, 3)", "arr[1]", "arr[(a)\1&\0011]",
            "'x'", "'\"'", "'\\''", "'\\\\'", "','", "')'", "'('", "'{'", "'\\n'", "1'000", "12'345'678", "(int)strlen(\"a\\\"),(b\")", "std::max(a,\1b)", "a\1?\1b\1:\0013", "i++", "++i",
            "INT32_MAX", "EOF", "int{4}", "({ int q = a;\1q + 1; })", "(NULL\1==\1nullptr)", "__LINE__", "static_cast<int>(b)", "int('\\x41')", "L'\"'", "u'x'", "-a", "(a\1<\1b)", "a\1>\1b", "(int)sizeof(\"NANO_LOG(\")",
            "std::pair<int,\1int>{a,\1b}.second", "(E(%d, 0),\1a)" % k, "E(%d, '\"')" % k, "errno * 0", "__builtin_LINE()", "\"abc\"[1]", "0x1'F", "!a", "~b", "a%\1 7"])

    def e_str(self):
        r = self.r
        lits = lambda: '"%s"' % r.choice(STRS)
        c = [lits(), lits(), lits(), "(a\1?\1%s\1:\1%s)" % (lits(), lits()), "std::string(%s).c_str()" % lits(), "%s\2%s" % (lits(), lits()), "E(%d,\1%s)" % (self.id(), lits()),
             "[]{\1return %s; }()" % lits(), "std::string(2, '\"').c_str()", "&%s[0]" % lits(), "__func__"]
        if self.raw:
            c += ['R"(raw)"', 'R"x(a " b)x"', 'R"(NANO_LOG(NOTICE, "no");)"', 'R"(\\)"', 'R"q()" NANO_LOG(NOTICE, "no"); )q"', 'R"(two\nlines " of)"', 'R"(\nNANO_LOG(NOTICE, "no");\n\n??/\n)"', 'u8R"(it\'s)" R"-(\\n)-"',
                  '(R"(%s)"\1+ 1)' % r.choice(["ab\"", "\\\\", "a)b", "a??)"])]
        return r.choice(c)

    def conv(self):
        """(specifier as written in the source, [argument expressions])"""
        r = self.r
        k = r.randrange(14)
        if k < 5:
            return r.choice(["%d", "%i", "%5d", "%-4d", "%x"]), [self.e_int()]
        if k < 8:
            return r.choice(["%s", "%s", "%10s"]), [self.e_str()]
        if k == 8:
            return r.choice(["%f", "%.2f", "%e"]), [r.choice(["1.5", "a\1/\0012.0", "1e3", "0x1p3", "(double)b", "E(%d, 2.5)" % self.id(), "1'0.5", "5."])]
        if k == 9:
            return "%ld", [r.choice(["5L", "(long)a", "E(%d,\0017L)" % self.id(), "1'000L", "LONG_MIN"])]
        if k == 10:
            return "%zu", [r.choice(["sizeof(std::pair<int,\1char>)", "strlen(\"),\")", "sizeof(int)"])]
        if k == 11:
            return "%c", [r.choice(["'a'", "'\"'", "(char)(65 + a)", "'\\''", "*\"z\""])]
        if k == 12:
            return r.choice(["%*d", "%.*d"]), ["(a\1&\0017)", self.e_int().replace("i++", "a").replace("++i", "b")]
        return "%.*s", ["3", self.e_str()]

    def log(self):
        r = self.r
        self.logs += 1
        lit, args = "", []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5])):
            lit += r.choice(["", " ", "t%d " % self.id(), "%%", "\\\"", "\\\\ ", "(", ");", "NANO_LOG(", "it's ", ", ", "\\t", "//", "\u00e9", "'"])
            sp, a = self.conv()
            lit += sp
            args += a
        lit += r.choice(["", ".", "\\n", "\\\"", "\\\\", " end %d" % self.id(), " )"])
        inc = [x for x in args if "i++" in x or "++i" in x]
        nested = [n for n, x in enumerate(args) if x.startswith("[&](int a,")]
        for n in nested[1:]:    # the order of evaluation of arguments is unspecified
            args[n] = "a"
        for x in inc[1:]:       # one side effect on i per statement, and nothing else that reads i
            args[args.index(x)] = "a"
        # split the literal at safe places
        pieces, cur = [], ""
        j = 0
        while j < len(lit):
            n = 2 if lit[j] in "\\" else 1
            cur += lit[j:j + n]
            j += n
            if r.random() < .03 and cur and not cur.endswith("%"):
                pieces.append(cur)
                cur = ""
        pieces.append(cur)
        fmt = "\2".join('"%s"' % p for p in pieces)
        if self.raw and r.random() < .15:
            fmt = r.choice(['R"(raw )"', 'R"x(a " )" b\\ )x"', 'R"(NANO_LOG(")"', 'R"(l1\nl2)"', 'R"()"']) + "\2" + fmt
        if r.random() < .06:
            fmt += "\2\" %\"\1PRIu64\2\"!\""
            args.append("(uint64_t)E(%d,\1a)" % self.id())
        lv = r.choice(["NOTICE", "NOTICE", "ERROR", "WARNING", "DEBUG", "NanoLog::NOTICE", "NanoLog::LogLevels::DEBUG"])
        return "NANO_LOG\1(\1%s\1,\1%s%s\1)\1;" % (lv, fmt, "".join("\1,\1" + a for a in args))

    # -- statements
    def simple(self):
        r = self.r
        x = r.random()
        if x < .55:
            return self.log()
        k = self.id()
        if r.random() < .12:        # names that are almost, but not, the log function
            return "%s\1(%d);" % (r.choice(ALMOST), k)
        return r.choice(["T(%d);" % k, "S(%s);" % self.e_str(), "S(\"NANO_LOG(NOTICE, \\\"no\\\");\");", "NANO_LOGGER(%d);" % k, "MY_NANO_LOG(%d);" % k, "_NANO_LOG(%d);" % k, "NANO_LOG_(%d);" % k,
                         "NANO_LOG2(%d);" % k, "NNANO_LOG(%d);" % k, "xNANO_LOG(%d, \"%%d\", 2);" % k, "NANO_LOGx\1=\1a;\1T(NANO_LOGx);", "{ char q = '\"'; T(q); }", "{ char q = '\\''; T(q); }", ";",
                         "i\1+=\0012;\1T(i);", "\4LOGI(a);\5", "\4LOGS(b\1)\1;\5", "\4LOGB(a + b);\5", "\4LOGV(\"v %d %s\", a, \"s\");\5", "\4LOGV(\"none\");\5", "S(__FILE__);", "T(__LINE__);",
                         "\4LOG3(a)\5", "const char *w%d = \"NANO_LOG(\";\1S(w%d);" % (k, k), "nsp::NANO_LOGGER(%d);" % k, "T(1'000'%03d);" % (k % 1000), "M(%s);" % self.e_int().replace("i++", "i").replace("++i", "i"),
                         "(void)\"%s\";" % r.choice(STRS), "\3#pragma GCC diagnostic push\3T(%d);\3#pragma GCC diagnostic pop\3" % k, "_Pragma(\"GCC diagnostic push\") _Pragma(\"GCC diagnostic pop\") T(%d);" % k,
                         "\\\3T(%d); \\\3  T(1);" % k])

    def body(self, depth):
        """A sub-statement: braced or a single statement."""
        r = self.r
        if r.random() < .5 or depth <= 0:
            s = self.log() if r.random() < .7 else r.choice(["T(%d);" % self.id(), ";", "{}"])
            return s
        return "{\1%s\1}" % self.block(depth - 1)

    def stmt(self, depth):
        r = self.r
        if depth <= 0 or r.random() < .45:
            return self.simple()
        k = r.randrange(24)
        b = self.body
        d = depth - 1
        v = "v%d" % self.id()
        if k == 0:
            return "if\1(%s)\1%s\2else\2%s" % (self.cond(), b(d), b(d))
        if k == 1:
            return "if\1(%s)\1%s" % (self.cond(), "{\1%s\1}" % self.block(d))
        if k == 2:
            return "if (%s) %s else if (%s)\1%s else\2%s" % (self.cond(), b(d), self.cond(), b(d), b(d))
        if k == 3:
            return "for (int %s = 0;\1%s < 2;\1++%s)\1%s" % (v, v, v, b(d))
        if k == 4:
            return "{ int %s = 2; while (%s-- > 0)\1%s\1}" % (v, v, b(d))
        if k == 5:
            return "{ int %s = 2; do\2%s\2while (--%s); }" % (v, b(d), v)
        if k == 6:
            return "switch (a & 3) {\1case 0:\1%s\1break;\1case 1:\2%s\1default:\1%s\1}" % (b(d), b(d), b(d))
        if k == 7:
            return "[&] {\1%s\1}();" % self.block(d)
        if k == 8:
            return "[&](auto a, int b) {\1%s\1}(a, b);" % self.block(d)
        if k == 9:
            return "try {\1%s\1if (a > b) throw 3;\1%s\1} catch (int) {\1%s\1}" % (self.block(d), self.simple(), self.block(d))
        if k == 10:
            return "L%s:\1%s" % (v, self.log())
        if k == 11:
            return "T(({\1%s\0013; }));" % self.simple()
        if k == 12:
            return "{ struct %s { int i = 0, arr[2] = {7, 8}, NANO_LOGx = 0; %s(int a, int b)\1{\1%s\1} ~%s() { int a = 1, b = 2;\1%s\1} } o(a, b); }" % (v.upper(), v.upper(), self.block(d), v.upper(), self.simple())
        if k == 13:
            return "for (int %s : {1, 2})\1{ T(%s);\1%s\1}" % (v, v, b(d))
        if k == 14:
            return "if constexpr (sizeof(int) == 4)\1%s\2else\2%s" % (b(d), b(d))
        if k == 15:
            return self.simple() + "\1" + self.simple() + "\1" + self.simple()
        if k == 16:
            return "\4TWICE(%s)\5" % self.simple_noline()
        if k == 17:
            return "\3#if 1\3%s\3#else\3NANO_LOG(NOTICE, garbage \" ;\3#endif\3" % self.stmt(d)
        if k == 18:
            return "\3#ifdef NOT_DEFINED_ANYWHERE\3NANO_LOG(broken\3#endif\3%s" % self.stmt(d)
        if k == 19:
            return "{\1using namespace NanoLog;\1%s\1}" % self.block(d)
        if k == 20:
            return "if (int %s = a) [[likely]]\2%s else\2{\1%s\1}" % (v, b(d), self.block(d))
        if k == 21:
            return "if (auto %s = [&](int x) { %s\1return x; }(a); %s)\1%s" % (v, self.simple(), v, b(d))
        if k == 22:
            return "{\1%s\1}" % self.block(d)
        return "static int s%s = [&] {\1%s\1return 5; }();\1T(s%s);" % (v, self.block(d), v)

    def simple_noline(self):
        for _ in range(20):
            s = self.simple()
            if "\3" not in s and "_Pragma" not in s and "\n" not in s and "__LINE__" not in s and "w%d" not in s and "const char *w" not in s:
                return s
        return "T(0);"

    def cond(self):
        return self.r.choice(["a", "a > b", "b & 1", "a == b", "!a", "a < 2 && b", "(T(%d), a)" % self.id()])

    def block(self, depth):
        return "\1".join("\1" + self.stmt(depth) for _ in range(self.r.choice([1, 1, 2, 3])))

    def unit(self, name, depth=3):
        r = self.r
        pre = "int i = 0, arr[2] = {5, 6}, NANO_LOGx = 0; (void)i; (void)arr; (void)NANO_LOGx;"
        body = pre + "\1" + "\1".join("\3" + self.stmt(depth) for _ in range(r.choice([1, 2, 4, 6])))
        k = r.randrange(9)
        if k == 0:
            return "template<typename X, int N>\1static\2void %s_t(X a, int b)\1{\1%s\3}\nvoid %s(int a, int b) { if (a & 1) %s_t<int,\1""1>(a, b); else %s_t<int,\1""2>(a, b); }" % (name, body, name, name, name)
        if k == 1:
            return "namespace ns_%s { namespace in { static void f(int a, int b) {\1%s\3} } }\nvoid %s(int a, int b) { ns_%s::in::f(a, b); }" % (name, body, name, name)
        if k == 2:
            return "struct C_%s { int a, b; C_%s(int a, int b) : a(a), b(b)\1{\1%s\3} };\nvoid %s(int a, int b) { C_%s c(a, b); }" % (name, name, body, name, name)
        if k == 3:
            return "static auto g_%s = [](int a, int b) {\1%s\3};\nvoid %s(int a, int b) { g_%s(a, b); }" % (name, body, name, name)
        if k == 4:
            return "void %s(int a, int b)\1try\1{\1%s\3} catch (int) {\1%s\1}" % (name, body, "int i = 0, arr[2] = {5, 6}, NANO_LOGx = 0; (void)i; (void)arr; (void)NANO_LOGx;" + self.simple())
        if k == 5:
            return "extern \"C\" {\3static void c_%s(int a, int b)\1{\1%s\3}\3}\nvoid %s(int a, int b) { c_%s(a, b); }" % (name, body, name, name)
        if k == 6:
            return "template<int N> struct P_%s { static void f(int a, int b); };\ntemplate<int N> void P_%s<N>::f(int a, int b) {\1%s\3}\nvoid %s(int a, int b) { P_%s<1>::f(a, b); P_%s<2>::f(a, b); }" % (name, name, body, name, name, name)
        return "void %s(int a, int b)\1{\1%s\3}" % (name, body)


PRELUDE = """#include <inttypes.h>
#include <limits.h>
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <string>
#include <algorithm>
#include <utility>
#include "NanoLog.h"
#include "lay.h"
using namespace NanoLog::LogLevels;
#define LOGI(x) NANO_LOG(NOTICE, "wrap " #x " %d", (x))
#define LOGS(x) NANO_LOG(WARNING, "ws %d", (x))
#define LOGB(x) do { NANO_LOG(ERROR, "wb %d", (x)); } while (0)
#define LOGV(...) NANO_LOG(DEBUG, __VA_ARGS__)
#define LOG3(x) NANO_LOG(NOTICE, "w1 %d", (x)); NANO_LOG(NOTICE, "w2"); NANO_LOG(DEBUG, "w1 %d", (x));
#define TWICE(...) { __VA_ARGS__ __VA_ARGS__ }
"""


def gen_program(r, units=8, files=2, header=True, raw=False):
    """{name: text}, list of source names, unit names."""
    ids = Ids()
    lay = Layout(r, ids, raw)
    srcs = {}
    names = []
    hdr_units = []
    if header:
        t = "#pragma once\n" + PRELUDE
        for k in range(2):
            nm = "h%d" % k
            hdr_units.append(nm)
            body = "int i = 0, arr[2] = {5, 6}, NANO_LOGx = 0; (void)i; (void)arr; (void)NANO_LOGx;\1" + lay.block(2)
            t += render(r, "inline void %s(int a, int b)\1{\1%s\3}" % (nm, body)) + "\n"
        srcs["inc/shared.h"] = t
    for f in range(files):
        t = (PRELUDE if not header else "") + ("#include \"inc/shared.h\"\n" if header else "")
        mine = []
        for k in range(units):
            nm = "u%d_%d" % (f, k)
            if r.random() < .12:
                t += "#line %d \"%s\"\n" % (r.choice([1, 500, 77777]), r.choice(["other%d.cc" % f, "dir/gen%d.y" % f, "f%d.cc" % f]))
            t += r.choice(["", "\n", "// NANO_LOG(NOTICE, \"no\");\n", "/* it's \" */\n"]) + "/*@ %s */" % nm + render(r, lay.unit(nm)) + "/*@end*/\n"
            mine.append(nm)
        names += mine
        if header:
            t += "void uh%d(int a, int b) { %s }\n" % (f, " ".join("%s(a, b);" % h for h in hdr_units))
            names.append("uh%d" % f)
        if r.random() < .2:
            t = t.rstrip("\n")
        srcs["f%d.cc" % f] = t if r.random() > .1 else t.replace("\r", "").replace("\n", "\r\n")
    main = '#include "lay.h"\n' + "".join("void %s(int a, int b);\n" % n for n in names)
    main += "void lay_run(int a, int b) {\n" + "".join("  %s(a, b);\n" % n for n in names) + "}\n"
    srcs["calls.cc"] = main
    return srcs, ["f%d.cc" % f for f in range(files)], names


def canon(data):
    """The trace, with runs of argument evaluations (whose order is unspecified) sorted."""
    out, run_ = [], []
    for l in data.split(b"\n"):
        if l.startswith(b"E "):
            run_.append(l)
        else:
            out += sorted(run_) + [l]
            run_ = []
    return out + sorted(run_)


class Lay:
    def __init__(self, ctx, tag, flags):
        self.ctx, self.tag, self.flags = ctx, tag, flags
        self.pp = LibPP(ctx, tag, flags, ["-std=c++17", "-O0"], main="laymain.cc")
        d = os.path.dirname(self.pp.objs[0])
        self.refmain = os.path.join(d, "laymain-ref.o")
        self.jobs = self.pp.jobs + [(os.path.join(HARNESS, "laymain.cc"), self.refmain, flags + ["-DLAYREF"])]

    def std(self):
        return next(f for f in self.flags if f.startswith("-std="))

    def reference(self, d, srcs):
        def one(s):
            ii = s + ".ref.ii"
            r = run(["g++", "-include", "array", "-include", "layref.h", "-E", "-I", vlib.RT, "-I", HARNESS, "-I", ".", s, "-o", ii, self.std()], cwd=d, timeout=120)
            if r.rc != 0:
                raise CompileFailed(s, r.err.decode(errors="replace"))
            obj = os.path.join(d, s + ".ref.o")
            r = run(["g++"] + self.flags + ["-Wformat", "-Werror=format", "-Wno-format-zero-length", "-c", ii, "-o", obj], cwd=d, timeout=600)
            if r.timeout or r.rc != 0:
                raise CompileFailed(s, r.err.decode(errors="replace"))
            return obj
        objs = pmap(one, srcs + ["calls.cc"], 3)
        return link(objs + [self.refmain], os.path.join(d, "ref"))

    def write(self, d, prog):
        for n, t in prog.items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", newline="", encoding="utf-8") as f:
                f.write(t)

    def attempt(self, prog, srcs, name):
        """(problem or None, number of messages, number of trace lines)"""
        d = os.path.join(self.ctx.build, name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        try:
            self.write(d, prog)
            try:
                ref = self.reference(d, srcs)
            except CompileFailed as e:
                return "GENERATOR: " + e.text[:1500], 0, 0
            except CheckError as e:
                return "GENERATOR: " + str(e)[:1500], 0, 0
            try:
                exe, dec = self.pp.build(d, srcs, os.path.join(d, "prog"), plain=("calls.cc",))
            except PreprocessFailed as e:
                return "the preprocessor rejects a valid program: " + e.text[-1200:], 0, 0
            except CompileFailed as e:
                return "the preprocessed program does not compile: " + e.text[:1500], 0, 0
            except CheckError as e:
                return "the preprocessed program does not link: " + str(e)[:1500], 0, 0
            x = run([ref, "t1", "e1", "-"], cwd=d, timeout=60)
            if x.timeout or x.rc != 0:
                return "GENERATOR: the reference fails with %s: %s" % (x.rc, summary(x.err)), 0, 0
            y = run([exe, "t2", "e2", "log"], cwd=d, timeout=60)
            if y.timeout or y.rc != 0:
                return "the preprocessed program %s: %s" % ("hangs" if y.timeout else "fails with status %s" % y.rc, summary(y.err)), 0, 0
            rd = lambda n: open(os.path.join(d, n), "rb").read()
            a, b = canon(rd("t1")), canon(rd("t2"))
            if a != b:
                i = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
                return "the preprocessed program behaves differently: event %d is %r instead of %r" % (i, b[i] if i < len(b) else "missing", a[i] if i < len(a) else "nothing"), 0, 0
            exp = read_expect(rd("e1"))
            o = run([dec, "decompressUnordered", "log"], cwd=d, timeout=60)
            if o.timeout or o.rc != 0:
                return "the log does not decompress: %s" % summary(o.err), 0, 0
            c = compare(exp, o.out)
            if c:
                return "message %d: %s" % c, 0, 0
            return None, len(exp), len(a)
        finally:
            shutil.rmtree(d, ignore_errors=True)
