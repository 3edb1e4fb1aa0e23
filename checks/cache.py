"""H01-H07: the cache (spec/Cache.tla, spec/CacheTrace.tla)."""
import os

READS = ["set", "gos", "get", "info", "getm", "rm", "clear"]


def S(xs):
    return "{%s}" % ", ".join(x if isinstance(x, str) and x in ("TRUE", "FALSE") else '"%s"' % x if isinstance(x, str) else str(x) for x in xs)


def consts(keys, vals, ops, ttls=(0,), caps=(50,), lims=(0,), mxs=(0,), algos=("lru",), imms=("TRUE",), views=("FALSE",), now=0, n=99):
    ops = list(ops) + (["tick"] if now else [])
    return "\n".join(["Keys = %s" % S(range(1, keys + 1)), "Vals = %s" % S(vals), "Ttls = %s" % S(ttls), "Caps = %s" % S(caps),
                      "Lims = %s" % S(lims), "Mxs = %s" % S(mxs), "Algos = %s" % S(algos), "Imms = %s" % S(imms),
                      "Views = %s" % S(views), "Ops = %s" % S(ops), "MaxNow = %d" % now, "MaxN = %d" % n])


INV = "INVARIANT Tracked WithinLimit\nPROPERTY A_Capacity A_NewKept A_Served A_LiveStay A_Refused\n"


def mc(c, *a, **k):
    c.model_check("Cache", "CONSTANTS\n" + consts(*a, **k) + "\nINIT Init\nNEXT Next\nVIEW view\nCONSTRAINT Bound\n" + INV)


def concurrent(c, b, expiring="", capped=""):
    t = os.path.join(c.dir, "cache.ndjson")
    if c.run_driver(b, ["-mode", "record", "-out", t, "-rounds", (1500 if capped else 400) * (1 if c.quick else 15)], env={"EXPIRING": expiring, "CAPPED": capped}) is not None:
        c.validate("CacheTrace", "Keys = {1, 2, 3}", t, "concurrent histories")


def h01(c):
    mc(c, 2, [1, 2], READS + ["bad"], ttls=[0], now=0, n=2 if c.quick else 3)
    b = c.build("cache")
    fs = [c.gen("Cache", consts(2, [1, 2], READS + ["bad"], n=2), "edges", 4 if c.quick else 5, constraint="Bound"),
          c.gen("Cache", consts(6, [1, 2, 3, 4, 5, 6, 7], READS + ["bad", "list", "set"], caps=[50, 6], lims=[0, 20], algos=["lru", "lfu"]), "sim", 60, 150 if c.quick else 2500),
          c.gen("Cache", consts(4, [1, 2, 3, 4, 5], READS + ["set", "purge"], ttls=[0, 1, 2, 3], caps=[50, 3], now=8), "sim", 30, 150 if c.quick else 1000)]
    c.replay(b, fs, ["got", "err", "info", "hits_s", "failed_s", "count", "keys_s", "list_s"])
    concurrent(c, b)


def h02(c):
    mc(c, 2, [1], ["set", "gos", "get", "purge"], ttls=[0, 1, 2], now=3 if c.quick else 4, n=1)
    b = c.build("cache")
    fs = [c.gen("Cache", consts(2, [1], ["set", "get", "getm", "gos", "info", "purge"], ttls=[0, 1, 2], now=3, n=2), "edges", 4 if c.quick else 5, constraint="Bound"),
          c.gen("Cache", consts(4, [1, 2], ["set", "gos", "get", "info", "getm", "purge", "set"], ttls=[0, 1, 2, 3], now=12), "sim", 50, 200 if c.quick else 2000),
          c.gen("Cache", consts(4, [1, 5, 6], ["set", "tset", "tget", "tgetm", "purge"], ttls=[0, 1, 2, 3], now=12), "sim", 50, 60 if c.quick else 600)]
    c.replay(b, fs, ["got", "err", "code", "info", "hits_s", "failed_s", "count", "keys_s"])
    concurrent(c, b, "1")


def h03(c):
    ops = ["set", "gos", "rm", "clear", "bad"]
    mc(c, 3, [1, 2], ops, lims=[0, 3, 4], caps=[2, 50], n=2)
    b = c.build("cache")
    fs = [c.gen("Cache", consts(3, [1, 2], ops, lims=[0, 3, 4], caps=[2, 50], n=2), "edges", 3 if c.quick else 4, constraint="Bound"),
          c.gen("Cache", consts(6, [1, 2, 3, 4, 5, 6, 7, 8], ops + ["set", "get", "tset"], lims=[0, 10, 15, 20, 30], caps=[50, 4, 6], algos=["lru", "lfu"]), "sim", 70, 200 if c.quick else 2500),
          c.gen("Cache", consts(5, [1, 2, 3, 4, 5], ops + ["set", "get", "purge", "setcap"], lims=[0, 12], ttls=[0, 1, 2], caps=[50, 5, 3], now=8), "sim", 40, 120 if c.quick else 1000)]
    c.replay(b, fs, ["err", "alloc", "count", "got"])
    concurrent(c, b)


def h04(c):
    ops = ["set", "gos", "get", "rm", "setcap"]
    mc(c, 3, [1], ops, caps=[1, 2], mxs=[0, 1], algos=["lru", "lfu"], n=2)
    mc(c, 3, [1], ["set", "get", "evict", "setcap"], caps=[1, 2], mxs=[3], imms=["FALSE"], n=1)
    b = c.build("cache")
    fs = [c.gen("Cache", consts(3, [1], ops, caps=[1, 2], mxs=[0, 1, 3], algos=["lru", "lfu"], n=2), "edges", 4 if c.quick else 5, constraint="Bound"),
          c.gen("Cache", consts(9, [1], ops + ["set", "set", "info", "getm"], caps=[1, 3, 5], mxs=[0, 2, 12], algos=["lru", "lfu"]), "sim", 80, 200 if c.quick else 2500),
          c.gen("Cache", consts(6, [1], ops + ["set", "set", "getm", "evict"], caps=[1, 3, 5], mxs=[8], algos=["lru", "lfu"], imms=["FALSE"]), "sim", 60, 100 if c.quick else 1500),
          c.gen("Cache", consts(6, [1], ops + ["set", "purge"], ttls=[0, 1, 2], caps=[2, 3], algos=["lru", "lfu"], now=8), "sim", 40, 80 if c.quick else 800)]
    c.replay(b, fs, ["count", "keys_s", "cap"])
    concurrent(c, b, capped="1")
    known(c, b)


def known(c, b):
    """The recorded defects of the tracking of keys, shown on the real code."""
    rep = c.run_driver(b, ["-mode", "orphans"])
    if rep is not None:
        for m in rep.get("mismatches") or []:
            c.report(m, "keys held that can never be evicted")


def h05(c):
    ops = ["set", "tset", "tget", "tgos", "tgetm", "rm"]
    b = c.build("cache")
    fs = [c.gen("Cache", consts(2, [1, 5, 4], ops, n=1), "edges", 3 if c.quick else 4, constraint="Bound"),
          c.gen("Cache", consts(5, [1, 2, 3, 4, 5, 6, 7, 8], ops + ["get", "gos", "clear"], lims=[0, 20]), "sim", 60, 250 if c.quick else 2500)]
    c.replay(b, fs, ["got", "code", "err", "hits_s", "failed_s"])


def h06(c):
    b = c.build("cache")
    fs = [c.gen("Cache", consts(2, [1, 3], ["set", "get", "list"], n=1), "edges", 4, constraint="Bound"),
          c.gen("Cache", consts(8, [1, 2, 3, 4, 5, 6, 7], ["set", "set", "get", "info", "rm", "list", "list"], ttls=[0, 9, 8, 7], caps=[50, 6]), "sim", 80, 150 if c.quick else 1500),
          c.gen("Cache", consts(6, [1, 2, 3], ["set", "get", "list", "list"], ttls=[0, 1, 9, 8], now=6), "sim", 50, 100 if c.quick else 1000)]
    c.replay(b, fs, ["list_s", "vals", "err"])


def h07(c):
    ops = READS + ["list", "evict", "bad"]
    b = c.build("cache")
    fs = [c.gen("Cache", consts(2, [1, 2], ops, views=["TRUE"], n=1), "edges", 3, constraint="Bound"),
          c.gen("Cache", consts(5, [1, 2, 3, 4, 5], ops + ["set"], views=["TRUE"], caps=[50, 4], lims=[0, 15], algos=["lru", "lfu"]), "sim", 60, 150 if c.quick else 2000),
          c.gen("Cache", consts(4, [1, 2, 3], ops + ["set"], ttls=[0, 1, 2], views=["TRUE"], now=6), "sim", 40, 80 if c.quick else 800)]
    c.replay(b, fs, ["got", "err", "info", "hits_s", "failed_s", "count", "keys_s", "list_s", "vals", "rec_s", "alloc"])


REGISTRY = {"H01": h01, "H02": h02, "H03": h03, "H04": h04, "H05": h05, "H06": h06, "H07": h07}
