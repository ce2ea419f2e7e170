#!/usr/bin/env python3
"""P16: preprocessing changes only log statements and keeps the program's behaviour."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from layout import *


def main():
    ctx = Ctx("P16")
    ctx.rules.append("a case is one generated program of several sources, each with generated layouts of log statements among other code, built with and without the preprocessor and run on 12 inputs; "
                     "non-trivial when it records at least 10 messages and 10 other events; distinct by source text")
    ctx.assumptions += ["g++ is the compiler and preprocessor", "the order of argument evaluations within a run of evaluations is not compared", "log calls are statements of their own"]
    variants = [("o0", ["-std=c++17", "-O0"]), ("o2", ["-std=c++17", "-O2", "-DNDEBUG"])]
    lays = [Lay(ctx, t, f) for t, f in variants]
    compile_many(sum((l.jobs for l in lays), []))
    n = 220 if ctx.thorough else 20
    stop, gens = [], []

    def gen(i):
        r = ctx.sub_rng("layout%d" % i)
        return gen_program(r, units=r.choice([1, 4, 8, 14]), files=r.choice([1, 2]), header=r.random() < .6, raw=r.random() < .4)

    def case(i):
        if stop:
            return
        prog, srcs, names = gen(i)
        bad, msgs, evs = lays[i % 2].attempt(prog, srcs, "c%d" % i)
        if bad and bad.startswith("GENERATOR"):
            gens.append((i, bad))
            return
        ctx.count(tuple(sorted(prog.items())), nontrivial=msgs >= 10 and evs >= 10)
        ctx.extra["messages"] = ctx.extra.get("messages", 0) + msgs
        ctx.extra["log_statements"] = ctx.extra.get("log_statements", 0) + sum(len(re.findall(r"(?<![A-Za-z_0-9])NANO_LOG\s*\(", t)) for t in prog.values())
        ctx.extra["events"] = ctx.extra.get("events", 0) + evs
        if i in (1, 2, 5):
            ctx.sample(prog[srcs[0]][-900:])
        if bad:
            stop.append((i, prog, srcs, bad))
    pmap(case, range(n), 5)
    if gens:
        raise CheckError("generated programs that are not valid C++: %s" % gens[:2])
    if stop:
        i, prog, srcs, bad = stop[0]
        lay = lays[i % 2]
        cnt = [0]
        best = [prog, bad]

        def fails(p):
            cnt[0] += 1
            b = lay.attempt(p, srcs, "shrink%d" % cnt[0])[0]
            if b and not b.startswith("GENERATOR"):
                best[0], best[1] = p, b
                return True
            return False
        reduce_program(prog, fails, lambda: cnt[0] < 60 and ctx.elapsed() < 600)
        if all(fails(best[0]) for _ in range(2)):
            txt = "build %s\nproblem %s\nbefore shrinking %s\n" % (lay.flags, best[1], bad) + "".join("\n---- %s\n%s" % x for x in sorted(best[0].items()))
            p = ctx.save_replay("program-%d.txt" % ctx.seed, txt)
            ctx.violation(best[1] + "\n" + txt[:200], p)
        else:
            ctx.extra.setdefault("unconfirmed", []).append(bad)
    ctx.finish()


def reduce_program(prog, fails, more):
    """Delete ranges of lines of each source while it keeps failing (candidates that are not valid C++ are rejected)."""
    cur = dict(prog)
    for n in sorted(cur, key=lambda n: -len(cur[n])):
        if n == "calls.cc":
            continue
        lines = cur[n].split("\n")
        k = len(lines) // 2
        # whole units first: replace their bodies
        for m in re.finditer(r"(?ms)^(?:/\*@ (\w+) \*/)(.*?)/\*@end\*/", cur[n]):
            if not more():
                return cur
            cand = dict(cur)
            cand[n] = cand[n].replace(m.group(0), "void %s(int, int) {}" % m.group(1), 1)
            if m.group(1) != "" and fails(cand):
                cur = cand
        k = 16
        while k >= 1:
            lines = cur[n].split("\n")
            j = 0
            while j < len(lines) and more():
                if any(l.strip() for l in lines[j:j + k]) and not any(l.startswith("#include") for l in lines[j:j + k]):
                    cand = dict(cur)
                    cand[n] = "\n".join(lines[:j] + lines[j + k:])
                    if fails(cand):
                        cur = cand
                        lines = cur[n].split("\n")
                        continue
                j += k
            k //= 4
    return cur


if __name__ == "__main__":
    main_wrapper(main)
