"""Generated log statements decode to exactly what printf would have printed (both flavours)."""
from proglib import *

RULE = ("a case is one execution of one generated statement (format over the printf grammar, argument types) with generated values; "
        "non-trivial when the statement has at least one conversion; distinct by (statement, expected text)")


def fidelity(prop, flavour):
    ctx = Ctx(prop)
    ctx.rules.append(RULE)
    ctx.assumptions += ["printf of the host C library is the reference", "C locale; wide characters are ASCII",
                        "messages stay below the documented staging-buffer limit"]
    scale = 6 if ctx.thorough else 1
    plain = ["-std=c++17", "-O1", "-g"]
    asan = ["-std=c++17", "-O1", "-g", "-fsanitize=address"]
    pp = flavour == "pp"
    variants = [("o0", ["-std=c++17", "-O0"], 300, ()), ("o2", ["-std=c++11", "-O2", "-DNDEBUG"], 90, ()), ("asan", asan, 60, ())] if pp else [
        ("o0", ["-std=c++17", "-O0"], 360, ()), ("o2", ["-std=c++17", "-O2", "-DNDEBUG"], 160, ()),
                ("asan", asan, 110, ("noterm",))]
    if pp:
        libs = {t: LibPP(ctx, t, fl, asan if t == "asan" else ["-std=c++17", "-O0"]) for t, fl, n, o in variants}
    else:
        libs = {t: Lib17(ctx, t, fl) for t, fl, n, o in variants}
        gen_helper_code(ctx)
        dec, deca = pmap(lambda a: build_decompressor(ctx, *a), [("plain", plain), ("asan", asan)])
    compile_many(sum((l.jobs for l in libs.values()), []))

    def attempt(tag, stmts, seed, rounds, big, files, name):
        """(problem or None, culprit statement numbers, expectations)."""
        d = os.path.join(ctx.build, name)
        rr = random.Random(name)
        srcs = write_program(d, stmts, rr, flavour, files=files)
        try:
            exe = libs[tag].build(d, srcs, os.path.join(d, "prog"))
        except CompileFailed as e:
            m = re.findall(r"(?<![a-z0-9])st_(\d+)", e.text)
            return "a valid statement is rejected at compile time: " + e.text[:600], [int(m[0])] if m else locate(d, srcs, e), []
        except PreprocessFailed as e:
            return "a valid statement is rejected by the preprocessor: " + e.text[-1500:], locate(d, srcs, e), []
        if pp:
            exe, dec1 = exe
            decs = [(dec1, "decompressUnordered"), (dec1, "decompress")]
        else:
            decs = [(dec, "decompressUnordered"), (deca, "decompress")]
        exps = []
        for k in range(len(seed)):
            bad, where, e = exercise(exe, decs, d, seed[k], rounds, big)
            exps += e
            if bad:
                return bad, [stmt_map(d, srcs).get(where)] if where else None, exps
        sm = stmt_map(d, srcs)
        exps = [(e, bool(stmts[sm[(e[2].decode(), e[1])]].convs())) for e in exps]
        shutil.rmtree(d, ignore_errors=True)
        return None, None, exps

    def locate(d, srcs, e):
        """Statement a build failure points at: by file:line of any generated source, else None."""
        sm = stmt_map(d, srcs)
        for f, l in re.findall(r"(prog\d+\.cc):(\d+)", e.text):
            if (f, int(l)) in sm:
                return [sm[(f, int(l))]]
        return None

    for rep in range(scale):
        for tag, fl, n, opts in variants:
            r = ctx.sub_rng("%s/%d" % (tag, rep))
            stmts = gen_stmts(r, n, flavour, opts)
            seeds = [r.randrange(1 << 40) for _ in range(2)]
            big = r.choice([0, 100000, 200000])
            bad, culprit, exps = attempt(tag, stmts, seeds, 25000, big, 16, "%s%d" % (tag, rep))
            for e, nt in exps if not bad else []:
                ctx.count((tag, rep, e), nontrivial=nt)
            for s in stmts[:1]:
                ctx.sample({"variant": tag, "format": s.fmt(), "args": [a.ctype for c in s.convs() for a in c.args]})
            if exps and not bad:
                ctx.sample({"expected": repr(exps[len(exps) // 2][0][3][:200])})
            ctx.extra["statements"] = ctx.extra.get("statements", 0) + n
            ctx.extra["conversion_shapes"] = len(set(c.kind for s in stmts for c in s.convs()) | ctx.extra.setdefault("_k", set()))
            ctx.extra["_k"] |= set(c.kind for s in stmts for c in s.convs())
            if not bad:
                continue
            final = [bad, None]
            one = [stmts[culprit[0]]] if culprit and culprit[0] is not None else None
            cnt = [0]

            def fails(ss):
                cnt[0] += 1
                b, c, e = attempt(tag, ss, seeds, 3000, big, 1, "shrink%d" % cnt[0])
                if b:
                    final[0], final[1] = b, ss
                return bool(b)
            if one and fails(one):
                minimize(one, fails)
            # confirm
            if final[1] is not None:
                ok = all(attempt(tag, final[1], seeds, 3000, big, 1, "confirm%d" % i)[0] for i in range(2))
                text = "\n".join(final[1][0].source("st_0", random.Random(0), flavour))
            else:
                ok = bool(attempt(tag, stmts, seeds, 25000, big, 16, "confirm")[0])
                text = "\n".join("\n".join(s.source("st_%d" % i, random.Random(0), flavour)) for i, s in enumerate(stmts))
            if ok:
                p = ctx.save_replay("case-%d.txt" % ctx.seed, "variant %s %s\nvalue seeds %s\nproblem %s\n\n%s\n" % (tag, fl, seeds, final[0], text))
                ctx.violation(final[0], p)
                ctx.extra.pop("_k")
                ctx.finish()
            ctx.extra.setdefault("unconfirmed", []).append(bad)
    ctx.extra.pop("_k")
    ctx.finish()
