#!/usr/bin/env python3
"""Ordered decompression prints all messages of an execution in time order."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hlib import *
from rtlib import *


def harness(ctx, rt):
    """Generated logs, written by the real encoder in the order the output thread would scan the staging buffers."""
    ctx.rules.append("scan simulations: a case is a generated history of arrivals between the steps of the output thread's scan, over 1-3 executions; "
                     "non-trivial when at least two threads have messages spread over at least two extents")
    ctx.assumptions.append("a message becomes visible to the output thread at the time it carries")
    SZ = ["-DNANOLOG_VERIF_STAGING_BUFFER_SIZE=16384", "-DNANOLOG_VERIF_OUTPUT_BUFFER_SIZE=16384", "-std=c++17", "-g"]
    builds = [("cpp17-asan", ["-O1", "-fsanitize=address"], 500), ("pp-asan", ["-O1", "-fsanitize=address", "-DPREPROCESSOR_NANOLOG"], 500),
              ("cpp17", ["-O2"], 3000), ("pp", ["-O2", "-DNDEBUG", "-DPREPROCESSOR_NANOLOG"], 3000)]
    exes = pmap(lambda b: build_harness(ctx, "order-" + b[0], "h_order.cc", SZ + b[1], generated=False), builds)
    for k, ((tag, fl, n), exe) in enumerate(zip(builds, exes)):
        if not run_harness(ctx, exe, n * (12 if ctx.thorough else 1), label="scan-" + tag, limit=200 if ctx.thorough else 6, seedbase=k,
                           extras=("messages", "extents", "cuts", "flushes")):
            return


def scen(rng, st, ou):
    """Histories in which every logging call is atomic, so that its time stamp is the time it becomes visible."""
    g = Gen(rng, st, ou, ())
    g.dist = "tiny"
    big = rng.random() < .3

    def log():
        n = rng.randrange(8) if not big else rng.randrange(max(1, g.max // 3))
        return "m%d,%d,%d" % (rng.choice(g.sites), n, rng.randrange(256))

    def some(n):
        o = []
        for _ in range(n):
            o.append(log())
            if rng.random() < pd:
                o.append(g.pause())
        return o
    pd = rng.choice([.02, .2, .6])
    T, main = {}, ["v4", "p"]
    if rng.random() < .8:       # register the statements first: a registration may have to wait for the output thread
        main += ["l%d,1,1" % k for k in sorted(set(g.sites))]
        if rng.random() < .5:
            main.append("s")
    nt, allp = rng.choice([1, 2, 2, 3, 4, 6]), rng.random() < .9
    for t in range(1, nt + 1):
        T[t] = (["p"] if allp or rng.random() < .5 else []) + some(rng.choice([rng.randrange(1, 6), rng.randrange(5, 40), rng.randrange(20, 80)]))
        main.append("c%d" % t)
        if rng.random() < .4:
            main += some(rng.randrange(4))
    main += some(rng.randrange(0, 30))
    if rng.random() < .2:
        main.append("s")
    if rng.random() < .2:
        main.append("f%d" % rng.randrange(2))
        main += some(rng.randrange(0, 20))
    order = list(range(1, nt + 1))
    rng.shuffle(order)
    for t in order:
        main.append("j%d" % t)
        if rng.random() < .2:
            main += some(rng.randrange(3))
    T[0] = main
    return Scen(T, limit=40000000)


def in_order(rt, out, info):
    paths = sorted({os.path.join(out.dir, "compressedLog")} | {e[3] for e in out.events if e[0] == "f" and e[2] == "1"})
    res, r = rt.decode([("o", p) for p in paths])
    if r.rc != 0 or r.timeout:
        return "ordered decompression failed (status %s)" % r.rc
    waited = any(e[0] == "K" for e in out.events)
    info["blocked_runs"] = int(waited)
    info["ordered_runs"] = int(not waited)
    if waited:              # a call that had to wait was not atomic
        return None
    for p, data in zip(paths, res):
        dec, marks, tail = parse_decoded(data)
        for a, b in zip([0] + marks, marks + [len(dec)]):
            seg = dec[a:b]
            for x, y in zip(seg, seg[1:]):
                if y[5] < x[5]:
                    return "ordered output of %s: message of %s printed after that of %s: %r, %r" % (
                        os.path.basename(p), y[5].decode(), x[5].decode(), y[4][:60], x[4][:60])
    return None


rt_main("P09", [(("order",), 700, 0, ("u", "uo"), None)], ext=in_order, more=harness, gen=scen,
        small=((1024, 1024), (4096, 4096), (8192, 8192)), native=())
