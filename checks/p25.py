#!/usr/bin/env python3
"""P25: the parameters in Config.h change how fast messages are written, never what is written."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from rtlib import *

# Further sites: messages that the encoding makes longer, not shorter
SITES = [("k%d %%d %%d" + " %%hhd" * 40, "t, s" + ", (signed char)(v ^ 77)" * 40),
         ("k%d %%d %%d" + " %%.17g" * 12, "t, s" + ", (v + 1) / 3.0e55" * 12),
         ("k%d %%d %%d" + " %%s" * 20, "t, s" + ", str + len" * 20)]


def gen_config(r, native=False, direct=None):
    """A configuration: any values that the comments in Config.h admit."""
    if native:
        st = r.choice([1 << 16, 100000, 1 << 20, 3 << 20])
        ou = r.choice([st, 2 * st, 8 << 20])
        ou = max(ou, st)
    else:
        st = r.choice([512, 1000, 1024, 1500, 2048, 3001, 4096, 8192])
        ou = st + r.choice([0, 1, 64, st, 3 * st, r.randrange(4 * st)])
        # a message takes up to twice its size in the output buffer, next to the extent's header
        ou = max(ou, 1280)
    d = {}
    flags = ["O_APPEND", "O_RDWR", "O_CREAT"]
    for f in ("O_NOATIME", "O_DSYNC"):
        if r.random() < .5:
            flags.append(f)
    if r.random() < .5 if direct is None else direct:
        flags.append("O_DIRECT")
        ou = (ou + 511) // 512 * 512        # O_DIRECT needs whole blocks
    r.shuffle(flags)
    d["FILE_PARAMS"] = "|".join(flags)
    d["STAGING_BUFFER_SIZE"] = str(st)
    d["OUTPUT_BUFFER_SIZE"] = str(ou)
    d["RELEASE_THRESHOLD"] = r.choice(["STAGING_BUFFER_SIZE>>1", "STAGING_BUFFER_SIZE", "1", "64", str(st - 1), str(2 * st), str(r.randrange(1, st))])
    d["POLL_INTERVAL_NO_WORK_US"] = str(r.choice([0, 1, 1, 50, 2000]))
    d["POLL_INTERVAL_DURING_IO_US"] = str(r.choice([0, 0, 1, 50, 2000]))
    if r.random() < .4:
        d["DEFAULT_LOG_FILE"] = '"%s"' % r.choice(["./first.log", "sub/l", "./sub/../other.clog"])
    return st, ou, d


def configs(ctx):
    out = []
    n, m = (16, 5) if ctx.thorough else (5, 2)
    for k in range(n + m):
        r = ctx.sub_rng("config%d" % k)
        st, ou, d = gen_config(r, k >= n, {0: True, 1: False, n: True}.get(k))
        if k == 0:
            d["RELEASE_THRESHOLD"] = r.choice(["1", "64"])
        elif k == 1:
            d["RELEASE_THRESHOLD"] = "STAGING_BUFFER_SIZE"
        out.append(("c%d" % k, st, ou, d, k >= n))
    return out


class G(Gen):
    """Some histories come from the sites whose messages grow."""

    def __init__(self, rng, st, ou, feat):
        Gen.__init__(self, rng, st, ou, feat)
        x = rng.random()
        if x < .3:
            self.sites = list(range(NSITES, NSITES + len(SITES)))
        elif x < .5:
            self.sites.append(NSITES + rng.randrange(len(SITES)))


def burst(rng, st, ou):
    """The staging buffer fills up with messages that grow before the background thread sees any."""
    T, main = {}, ["v4"]
    for t in range(1, rng.randrange(2, 4)):
        T[t] = []
        for _ in range(rng.randrange(1, 4)):
            k = NSITES + rng.randrange(len(SITES))
            T[t] += ["m%d,%d,%d" % (k, rng.randrange(4), rng.getrandbits(30))] * rng.randrange(1, 2 * st // 64 + 2)
            T[t].append(rng.choice(["d5", "d300", "s"]))
        main.append("c%d" % t)
    main += ["j%d" % t for t in T] + ["s", "a"]
    T[0] = main
    return Scen(T, limit=40000000)


def gen(rng, st, ou):
    if rng.random() < .15:
        return burst(rng, st, ou)
    return G(rng, st, ou, rng.choice([("files",), ("sync",), ("stats",), ("exit",)])).scen()


def native_gen(rng, st, ou):
    """Enough volume to go around the staging buffers of this configuration a few times."""
    g = G(rng, st, ou, ())
    big = min(max_str(st, ou), 300000)
    T, main = {}, ["v4"]
    for t in range(1, rng.randrange(2, 5)):
        n = rng.randrange(1, min(3 * st // 400, 6000))
        g.max = rng.choice([16, 40, 400, big])
        n = min(n, 1 + 4 * st // (100 + g.max))
        T[t] = [g.log() for _ in range(n)]
        main.append("c%d" % t)
        if rng.random() < .3:
            main.append("s")
        if rng.random() < .3:
            main.append("f%d" % rng.randrange(3))
    for t in sorted(T):
        main.append("j%d" % t)
    main += ["s", "a", "h"]
    T[0] = main
    return Scen(T)


if __name__ == "__main__":
    rt_main("P25", [(("files", "sync", "stats", "exit"), 700, 24, ("u", "o", "i"), None)], gen=gen, native_gen=native_gen,
            small=(), native=(), configs=configs, sites=SITES, quick_s=200, thorough_s=600)
