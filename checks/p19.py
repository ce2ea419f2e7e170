#!/usr/bin/env python3
"""P19: every part of the system reads a format string the same way."""
import os, sys, json, re, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hlib import *
from proglib import preprocess, compile_in, PreprocessFailed, CompileFailed
import vlib
from concurrent.futures import ThreadPoolExecutor

SPEC = re.compile(r"%(?:(?P<pc>%)|[-+ #0]*(?:(?P<w>\*)|\d*)(?:\.(?:(?P<p>\*)|(?P<pd>\d*)))?(?P<len>hh|h|ll|l|j|z|t|L)?(?P<c>[diuoxXfFeEgGaAcsp]))")
INT = {None: "int", "hh": "char", "h": "short", "l": "long", "ll": "long long", "j": "intmax_t", "z": "size_t", "t": "ptrdiff_t"}


def grammar(f):
    """None for an unsupported format, "skip" where nothing is claimed, or the list of (C type, dynamic width, precision)."""
    out, i = [], 0
    if re.sub(r"\\[n\\\"]", "", f).count("\\"):
        return "skip"      # not an escape sequence of the generator's
    while True:
        i = f.find("%", i)
        if i < 0:
            return out
        m = SPEC.match(f, i)
        if not m:
            # the glibc extensions that the preprocessor also knows
            return "skip" if re.match(r"%[-+ #0]*(\*|\d*)(\.(\*|\d*))?(Z[diuoxX]|(hh|h|ll|j|z|t|Z)[fFeEgGaA])", f[i:]) else None
        i = m.end()
        if m.group("pc"):
            continue
        c, ln = m.group("c"), m.group("len")
        if re.search(r"\d{9}", m.group(0)):
            return "skip"
        prec = "*" if m.group("p") else (None if m.group("pd") is None else int(m.group("pd") or 0))
        if c in "diuoxX":
            if ln == "L":
                return None
            u = c in "uoxX"
            t = INT[ln]
            if t == "intmax_t":
                t = "uintmax_t" if u else t
            elif t == "char":
                t = "unsigned char" if u else "signed char"
            elif t not in ("size_t", "ptrdiff_t"):
                t = ("unsigned " if u else "") + t + (" int" if t != "int" else "")
        elif c in "fFeEgGaA":
            if ln not in (None, "l", "L"):
                return "skip"
            t = "long double" if ln == "L" else "double"
        elif c == "s":
            if ln not in (None, "l"):
                return None
            t = "const wchar_t*" if ln else "const char*"
        elif c == "c":
            if ln not in (None, "l"):
                return None
            t = "wint_t" if ln else "int"
        else:
            if ln:
                return None
            t = "const void*"
        out.append((t, bool(m.group("w")), prec))


def gen_spec(r):
    s = "%" + "".join(r.choice("-+ #0") for _ in range(r.choice([0, 0, 0, 1, 2, 3, r.randrange(9)])))
    s += r.choice(["", "", "", "*", str(r.randrange(1, 300)), str(r.randrange(1, r.choice([20000, 10 ** 6])))])
    s += r.choice(["", "", ".", ".*", ".%d" % r.randrange(200), ".0"])
    k = r.random()
    if k < .5:
        return s + r.choice(["", "", "hh", "h", "l", "ll", "j", "z", "t"]) + r.choice("diuoxX")
    if k < .7:
        return s + r.choice(["", "l", "L"]) + r.choice("fFeEgGaA")
    if k < .9:
        return s + r.choice(["", "", "l"]) + "s"
    return s + r.choice(["c", "lc", "p"])


def gen_format(r):
    lit = lambda: "".join(r.choice(["a", "d", "s", " ", "%%", "5", ".", "*", "l", "\\n", "\\\\", "\\\"", "'", "\u00e9", "{", "}", "n", "#"]) for _ in range(r.choice([0, 0, 1, 3])))
    f = lit() + "".join(gen_spec(r) + lit() for _ in range(r.choice([0, 1, 1, 2, 5])))
    if r.random() < .5:
        for _ in range(r.choice([1, 1, 2])):
            cuts = [k for k in range(len(f) + 1) if not (k and f[k - 1] == "\\" and not (k > 1 and f[k - 2] == "\\"))]
            p = r.choice(cuts)
            c = r.choice("%%%%**..-+ #0123456789hlLjztqIncdsfxpuSCmgb$'wk")
            if f[p:p + 1] == "\\" or r.random() < .5:
                f = f[:p] + r.choice([c, "%" + c]) + f[p:]
            else:
                f = f[:p] + r.choice(["", c]) + f[p + 1:]
    return f


WORKER = r'''
import sys, json
sys.path.insert(0, sys.argv[1])
import warnings
warnings.simplefilter("ignore")
from FunctionGenerator import *
out = []
for f in json.load(sys.stdin):
    try:
        out.append([[x.type, x.width == "*", x.precision, x.substring] for x in splitAndParseTypesInFmtString(f)])
    except ValueError:
        out.append("rejected")
    except Exception as e:
        out.append("%s: %s" % (type(e).__name__, e))
json.dump(out, sys.stdout)
'''


def judge(f, got):
    want = grammar(f)
    if want == "skip":
        return None
    if isinstance(got, str) and got != "rejected":
        return "the preprocessor's parser fails on '%s': %s" % (f, got)
    if want is None:
        return None if got == "rejected" else "the preprocessor accepts the unsupported format '%s'" % f
    if got == "rejected":
        return "the preprocessor rejects the format '%s'" % f
    if "".join(g[3] for g in got) != f:
        return "the preprocessor's fragments of '%s' are %s" % (f, [g[3] for g in got])
    have = [(" ".join(g[0].split()), g[1], g[2]) for g in got if g[0]]
    # equivalent spellings of the same type
    norm = lambda t: {"unsigned": "unsigned int", "long": "long int", "long long": "long long int", "short": "short int", "unsigned long": "unsigned long int", "unsigned long long": "unsigned long long int",
                      "unsigned short": "unsigned short int", "char const*": "const char*"}.get(t, t)
    isstr = lambda t: "char" in t and "*" in t or "wchar_t*" in t
    a = [(norm(t), w, p if isstr(t) or p == "*" else None) for t, w, p in want]
    b = [(norm(t), w, p if isstr(t) or p == "*" else None) for t, w, p in have]
    if a != b:
        return "the format '%s' takes %s, the preprocessor says %s" % (f, a, b)
    return None


def python_part(ctx, n):
    def batch(k):
        r = ctx.sub_rng("pyfmt%d" % k)
        fs = [gen_format(r) for _ in range(n)]
        p = run(["python3", "-c", WORKER, os.path.join(vlib.REPO, "preprocessor")], inp=json.dumps(fs).encode(), timeout=300)
        if p.timeout or p.rc != 0:
            raise CheckError("the preprocessor's parser could not be run: %s" % p.err.decode(errors="replace")[-800:])
        return list(zip(fs, json.loads(p.out)))
    worst = None
    for res in pmap(batch, range(8)):
        for f, g in res:
            w = grammar(f)
            ctx.count(("py", f), nontrivial=w is None or (w != "skip" and bool(w)))
            key = "preprocessor_rejected" if w is None else "preprocessor_skipped" if w == "skip" else "preprocessor_valid"
            ctx.extra[key] = ctx.extra.get(key, 0) + 1
            bad = judge(f, g)
            if bad and (worst is None or len(f) < len(worst[0])):
                worst = (f, bad)
    if worst:
        # shrink by deleting characters
        f, bad = worst
        changed = True
        while changed:
            changed = False
            cands = [f[:i] + f[i + 1:] for i in range(len(f))]
            p = run(["python3", "-c", WORKER, os.path.join(vlib.REPO, "preprocessor")], inp=json.dumps(cands).encode(), timeout=120)
            for c, g in zip(cands, json.loads(p.out)):
                b = judge(c, g)
                if b:
                    f, bad, changed = c, b, True
                    break
        ctx.violation(bad, ctx.save_replay("preprocessor-%d.txt" % ctx.seed, "format %r\n%s\n" % (f, bad)))
        return False
    return True


def esc(f):
    return f.replace("\u00e9", "e")


def rejected_part(ctx, n):
    """Unsupported formats in real programs: neither flavour may build them; their supported neighbours build."""
    r = ctx.sub_rng("programs")
    progs, fixed = [], ["%n", "%hhn", "%5%d", "%Ld", "%lls", "%hlld", "%m", "%S", "%", "x %", "%1$d", "%.5.2f", "%hs", "%y", "%qd", "%lp"]
    r.shuffle(fixed)
    bads = fixed[:n // 2]
    while len(bads) < n:
        f = gen_format(r)
        if grammar(f) is None and "\\" not in f:
            bads.append(f)

    vals = {"const char*": '"s"', "const wchar_t*": 'L"w"', "double": "1.5", "long double": "2.5L", "const void*": "(const void *)p"}

    def one(a):
        k, f = a
        d = os.path.join(ctx.build, "rej%d" % k)
        os.makedirs(d, exist_ok=True)
        g = grammar(f)
        # an argument list of every plausible length
        lists = [""] + [", 1"] + [", (int *)p"] + [", 1, 2"] + [", \"s\""] if g is None else ["".join((", 1" if w else "") + (", 1" if p == "*" else "") + ", " + vals.get(t, "(%s)1" % t) for t, w, p in g)]
        res = []
        for j, l in enumerate(lists):
            with open(os.path.join(d, "p%d.cc" % j), "w") as o:
                o.write("#include <stdint.h>\n#include <stddef.h>\n#include <wchar.h>\n#include \"NanoLog.h\"\nusing namespace NanoLog::LogLevels;\nvoid f(void *p) {\n    NANO_LOG(NOTICE, \"%s\"%s);\n}\n" % (esc(f), l))
            ok = None
            try:
                compile_in(d, "p%d.cc" % j, os.path.join(d, "p%d.o" % j), ["-std=c++17", "-fsyntax-only", "-include", "NanoLogCpp17.h"])
                ok = "the C++17 flavour builds"
            except CompileFailed as e:
                why = e.text
            if (ok is not None) == (g is None):
                res.append((f, l, "%s the %s format '%s' (arguments%s)%s" % (ok or "the C++17 flavour rejects", "unsupported" if g is None else "supported", f, l or " none", "" if ok else ": " + why[:400])))
            ok = None
            try:
                preprocess(d, "p%d.cc" % j, "p%d.map" % j)
                ok = "the preprocessor accepts"
            except PreprocessFailed as e:
                why = e.text
            if (ok is not None) == (g is None):
                res.append((f, l, "%s the %s format '%s' (arguments%s)%s" % (ok or "the preprocessor rejects", "unsupported" if g is None else "supported", f, l or " none", "" if ok else ": " + why[:400])))
        shutil.rmtree(d, ignore_errors=True)
        return res, len(lists)
    goods = []
    while len(goods) < 3 * n:
        f = gen_format(r)
        g = grammar(f)
        if g and g != "skip":
            goods.append(f)
    out = pmap(one, list(enumerate(bads + goods)))
    ctx.extra["programs_built"] = sum(c for _, c in out) * 2
    for f in bads + goods:
        ctx.count(("program", f), nontrivial=True)
    fails = sorted(sum((x for x, _ in out), []), key=lambda x: len(x[0]))
    if fails:
        f, l, bad = fails[0]
        ctx.violation(bad, ctx.save_replay("program-%d.txt" % ctx.seed, "NANO_LOG(NOTICE, \"%s\"%s);\n%s\n" % (f, l, bad)))
        return False
    return True


def main():
    ctx = Ctx("P19")
    ctx.rules.append("a case is a group of up to 12 generated format strings (half of them near misses of the grammar) given to the compile-time analysis plus up to four formats with messages decoded by the decompressor, "
                     "or one format given to the preprocessor's parser, or one format in a program built in both flavours; non-trivial when a format has an argument or must be rejected; distinct by format text")
    ctx.assumptions += ["glibc's parse_printf_format agrees with the reference grammar on every valid format (checked on each)", "formats without embedded NUL or escapes that denote %, numbers of at most eight digits",
                        "nothing is claimed for the length modifier Z and for floating point conversions with integer length modifiers"]
    builds = [("asan", ["-O1", "-fsanitize=address"], 3000), ("o2", ["-O2"], 40000)]
    pool = ThreadPoolExecutor(2)
    futs = [pool.submit(build_harness, ctx, "fmt-" + b[0], "h_fmt.cc", ["-std=c++17"] + b[1], generated=False) for b in builds]
    ok = python_part(ctx, 60000 if ctx.thorough else 4000)
    ok = ok and rejected_part(ctx, 40 if ctx.thorough else 10)
    exes = [f.result() for f in futs] if ok else builds
    for k, ((tag, fl, n), exe) in enumerate(zip(builds, exes)):
        ok = ok and run_harness(ctx, exe, n * (30 if ctx.thorough else 1), label=tag, limit=300 if ctx.thorough else 10, seedbase=k,
                                extras=("valid_formats", "unsupported_formats", "decoded_messages", "decoded_arguments"))
    ctx.finish()


if __name__ == "__main__":
    main_wrapper(main)
