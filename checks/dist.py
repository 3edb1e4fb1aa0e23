"""D01-D07, D09, D10, D14: the distributed backend (spec/Dist.tla)."""

DEF = dict(N=3, R=3, Pref="P3a", WC='"quorum"', RC='"quorum"', Hints=False, HPN=0, HT=0, HB=0, Batch=0, Chunk=128,
           Grace=0, HTTL=0, TTTL=0, Ops="", MaxVer=3, Vals="1 2", MaxTicks=0)


seq = 0


def K(**kw):
    d = dict(DEF)
    d.update(kw)
    out = []
    for k, v in d.items():
        if k == "Pref":
            out.append("Pref <- %s" % v)
        elif k == "Ops":
            out.append("Ops = {%s}" % ", ".join('"%s"' % o for o in v.split()))
        elif k == "Vals":
            out.append("Vals = {%s}" % ", ".join(v.split()))
        elif k in ("WC", "RC") and not v.startswith('"'):
            out.append('%s = "%s"' % (k, v))
        elif isinstance(v, bool):
            out.append("%s = %s" % (k, "TRUE" if v else "FALSE"))
        else:
            out.append("%s = %s" % (k, v))
    return "\n".join(out)


def mc(c, props, invs=(), **kw):
    c.model_check("Dist", "CONSTANTS\n" + K(**kw) + "\nINIT Init\nNEXT Next\nVIEW view\nCONSTRAINT Bound\n" +
                  "".join("INVARIANT %s\n" % i for i in invs) + "".join("PROPERTY %s\n" % p for p in props),
                  " ".join("%s=%s" % i for i in kw.items()))


def edges(c, depth, **kw):
    return c.gen("Dist", K(**kw), "edges", depth, constraint="Bound", note=" ".join("%s=%s" % i for i in kw.items()))


def sim(c, depth, num, **kw):
    global seq
    seq += 1
    return c.gen("Dist", K(**kw), "sim", depth, num, seed=c.seed * 100 + seq, note=" ".join("%s=%s" % i for i in kw.items()))


ONE = dict(N=2, R=2, Pref="P2a", MaxVer=2)
FOUR = dict(N=4, R=3, Pref="P4c", MaxVer=99, Vals="1 2 3")
FIVE = dict(N=5, R=4, Pref="P5c", MaxVer=99, Vals="1 2 3")


def driver(c):
    return c.build("dist", tags="test,verif")


def n(c, quick, thorough):
    return quick if c.quick else thorough


def d01(c):
    mc(c, ["WriteQuorum", "WriteWins", "NeverOlder"], Ops="set link", MaxVer=2, Vals="1")
    b = driver(c)
    f = ["d1err", "d1cp"]
    for wc in ("one", "quorum", "all"):
        e = edges(c, 4, Ops="set link", WC=wc, Vals="1 2", **ONE)
        s = sim(c, 25, n(c, 80, 1500), Ops="set link cut heal arrive", WC=wc, **FOUR)
        s5 = sim(c, 25, n(c, 40, 800), Ops="set cut link heal view", WC=wc, **FIVE)
        c.replay(b, [e, s, s5], f)
        c.replay(b, [s], f, ["-wire", "http"])


def d02(c):
    mc(c, ["ReadNewest", "WriteQuorum", "NeverOlder"], Ops="set get link", MaxVer=2, Vals="1")
    b = driver(c)
    f = ["d2x", "d2cp"]
    for rc in ("one", "quorum", "all"):
        e = edges(c, 4, Ops="get arrive", RC=rc, Vals="1", **ONE)
        s = sim(c, 25, n(c, 80, 1500), Ops="set get cut heal arrive", RC=rc, WC="one", **FOUR)
        s5 = sim(c, 25, n(c, 40, 800), Ops="set get cut heal link drop", RC=rc, **FIVE)
        c.replay(b, [e, s, s5], f)
        c.replay(b, [s], f, ["-wire", "http"])
        if rc == "all":
            c.replay(b, [s, s5], f, ["-parallel"])


def d03(c):
    mc(c, ["NeverOlder", "WriteWins", "TombHolds"], ["NotBoth"], Ops="set arrive arrdel sync", **dict(ONE, Vals="1"))
    b = driver(c)
    f = ["d3cp"]
    e = edges(c, 5, Ops="arrive set", Vals="1 2", **dict(ONE, MaxVer=3))
    e1 = edges(c, 4, Ops="arrive arrdel", Vals="1", N=1, R=1, Pref="P1a", MaxVer=4)
    s = sim(c, 30, n(c, 150, 2500), Ops="set get arrive arrdel sync cut heal", Chunk=2, **FOUR)
    s5 = sim(c, 30, n(c, 100, 1500), Ops="arrive sync", Hints=True, **FIVE)
    c.replay(b, [e, e1, s, s5], f)
    c.replay(b, [s], f, ["-wire", "http"])


def d04(c):
    mc(c, ["TombHolds", "DeleteReaches", "NeverOlder"], ["NotBoth"], Ops="set del arrive link", **dict(ONE, Vals="1"))
    mc(c, ["SetLands", "TombHolds"], ["NotBoth"], Ops="set del", WC="all", **dict(ONE, Pref="P2b", Vals="1", MaxVer=3 if c.quick else 4))
    b = driver(c)
    f = ["d4err", "d4cp", "d4p"]
    e = edges(c, 4, Ops="set del arrive arrdel", **dict(ONE, Vals="1"))
    s = sim(c, 30, n(c, 150, 2500), Ops="set del arrive arrdel sync cut heal", Chunk=2, **FOUR)
    s5 = sim(c, 30, n(c, 100, 1500), Ops="set del sync link heal", **FIVE)
    calm = sim(c, 30, n(c, 60, 900), Ops="set del", **FOUR)
    t = sim(c, 14, n(c, 150, 1500), Ops="arrive arrdel tick compact", Vals="1 2", TTTL=2, MaxTicks=5, N=2, R=2, Pref="P2c", MaxVer=6)
    c.replay(b, [e, s, s5, calm, t], f)
    c.replay(b, [s, calm], f, ["-wire", "http"])


def d05(c):
    mc(c, ["HintDelivered", "MissedKept"], Ops="set cut heal replay", Hints=True, **dict(ONE, Vals="1", MaxVer=3))
    mc(c, ["HintDelivered"], ["HintCaps"], Ops="set cut heal replay", Hints=True, HPN=2, HT=2, HB=30, **dict(ONE, Vals="1 7", MaxVer=3))
    b = driver(c)
    f = ["d5cp", "d5h", "d5m"]
    caps = [dict(), dict(HPN=2), dict(HT=3), dict(HB=40), dict(HPN=3, HT=4, HB=60), dict(HPN=1), dict(HPN=2, HT=2)]
    for i, cap in enumerate(caps):
        s = sim(c, 30, n(c, 40, 800), Ops="set cut heal link replay arrive", Hints=True, **dict(FOUR, Vals="1 2 9"), **cap)
        c.replay(b, [s], f)
        if i in (0, 4):
            c.replay(b, [s], f, ["-wire", "http"])
    t = sim(c, 16, n(c, 150, 1500), Ops="set cut heal replay tick", Hints=True, HTTL=2, MaxTicks=5, **dict(FOUR, Vals="1 2 9"))
    c.replay(b, [t], f)


def d06(c):
    mc(c, ["SyncCovers", "NeverOlder"], ["NotBoth"], Ops="arrive arrdel sync", Chunk=1, **dict(ONE, Pref="P2b", Vals="1"))
    b = driver(c)
    f = ["d6err", "d6cp", "d6eq"]
    for ch in (1, 2, 128):
        e = edges(c, 4, Ops="arrive arrdel sync cmp", Chunk=ch, **dict(ONE, Vals="1"))
        s = sim(c, 30, n(c, 100, 2000), Ops="set arrive arrdel drop sync cmp cut heal", Chunk=ch, **FOUR)
        c.replay(b, [e, s], f)
        c.replay(b, [s], f, ["-wire", "http"])
    for ch in (2, 128):
        s = sim(c, 20, n(c, 150, 2000), Ops="arrive arrdel drop sync cmp", Chunk=ch, **dict(ONE, Pref="P2c"))
        c.replay(b, [s], f, ["-crafted"])


def d07(c):
    mc(c, ["NoKeyLost", "Settled"], Ops="calm set crash join rebalance settle cut", R=2, MaxVer=2, Vals="1")
    b = driver(c)
    f = ["d7cp", "d7h"]
    for kw in (dict(), dict(R=2), dict(R=1), dict(Hints=True), dict(Hints=True, R=2)):
        k = dict(FOUR)
        k.update(kw)
        s = sim(c, 40, n(c, 60, 1000), Ops="set del cut heal crash join rebalance settle replay", **k)
        c.replay(b, [s], f)
        if kw == dict(Hints=True, R=2):
            c.replay(b, [s], f, ["-wire", "http"])
    t = sim(c, 25, n(c, 100, 1000), Ops="set cut heal crash join rebalance settle tick", Grace=2, MaxTicks=6, **dict(FOUR, R=2))
    c.replay(b, [t], f)


def d09(c):
    mc(c, ["DrainRefuses", "DrainSticks"], Ops="set get del drain link", **dict(ONE, Vals="1"))
    b = driver(c)
    f = ["d9err", "d9cp", "d9x", "d9n", "d9is", "d9stop"]
    e = edges(c, 4, Ops="set get del drain", **dict(ONE, Vals="1"))
    s = sim(c, 25, n(c, 150, 2500), Ops="set get del drain cut heal stop", **FOUR)
    c.replay(b, [e, s], f)
    h = sim(c, 25, n(c, 100, 1000), Ops="set get del drain health stop", **FOUR)
    c.replay(b, [h], f + ["d9health"], ["-wire", "http"])


def d10(c):
    mc(c, ["NoForeign"], Ops="set arrive view", R=1, **dict(N=3, Pref="P3a", Vals="1", MaxVer=2))
    b = driver(c)
    f = ["d10ref", "d10cp"]
    e = edges(c, 4, Ops="arrive view", **dict(ONE, R=1, Vals="1"))
    s = sim(c, 30, n(c, 150, 2500), Ops="set arrive view cut heal", **dict(FOUR, R=2))
    s5 = sim(c, 30, n(c, 100, 1500), Ops="set arrive view", **dict(FIVE, R=2))
    c.replay(b, [e, s, s5], f)
    c.replay(b, [s], f, ["-wire", "http"])


def d14(c):
    b = driver(c)
    f = ["d14cp", "d14c", "d14b", "d14fcp", "d14fb"]
    for batch in (0, 1, 2, 3):
        s = sim(c, 30, n(c, 60, 1200), Ops="arrive get flush cut heal drop stop", RC="all", Batch=batch, **FOUR)
        c.replay(b, [s], f)
        if batch == 2:
            c.replay(b, [s], f, ["-wire", "http"])


REGISTRY = {"D01": d01, "D02": d02, "D03": d03, "D04": d04, "D05": d05, "D06": d06, "D07": d07, "D09": d09, "D10": d10, "D14": d14}
