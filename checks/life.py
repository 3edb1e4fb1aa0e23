"""D15 and D16: values and lifetimes of copies in a cluster (spec/Lifetime.tla)."""
KINDS = "text bin b64 json quoted num null big empty"
OPS = "set plant xfer tick get pass remove"


def K(r=2, n=3, keys=("k1", "k2"), kinds=KINDS, maxn=8, ops=OPS):
    s = lambda xs: "{" + ", ".join('"%s"' % x for x in xs) + "}"
    return "N = %d\nR = %d\nKeys = %s\nKinds = %s\nMaxN = %d\nOps = %s" % (n, r, s(keys), s(kinds.split()), maxn, s(ops.split()))


FIELDS = ["ok", "found", "kind", "n", "left", "gone", "live_s"]


def model(c):
    c.model_check("Lifetime", "CONSTANTS\n" + K(r=2, keys=("k1",), kinds="text", maxn=3 if c.quick else 4)
                  + "\nINIT Init\nNEXT Next\nINVARIANT SameWrite\nPROPERTIES Shrinks OnlyExpired NoneReturned\nVIEW view\n", "lifetimes")


def d15(c):
    model(c)
    b = c.build("life", tags="test,verif")
    q = c.quick
    for i, (r, comp, num) in enumerate([(2, 0, 90), (3, 64, 90), (1, 0, 50)]):
        g = c.gen("Lifetime", K(r=r, ops="set plant xfer tick get remove"), "sim", 16, num if q else num * 12, seed=c.seed * 10 + i, note="%d owners" % r)
        c.replay(b, g, FIELDS, ["-compress", str(comp)])
    g = c.gen("Lifetime", K(r=2, maxn=30, ops="set plant xfer get remove"), "sim", 40, 60 if q else 900, seed=c.seed * 10 + 4, note="values")
    for comp in (0, 1):
        c.replay(b, g, FIELDS, ["-noclock", "-compress", str(comp)])
    g = c.gen("Lifetime", K(r=2, keys=("raw",), kinds="text", maxn=30, ops="set get remove"), "sim", 8, 30, seed=c.seed * 10 + 5, note="a key that is not text")
    c.replay(b, g, FIELDS, ["-noclock"])


def d16(c):
    model(c)
    b = c.build("life", tags="test,verif")
    q = c.quick
    for i, (r, num) in enumerate([(2, 90), (3, 90), (1, 60)]):
        g = c.gen("Lifetime", K(r=r, kinds="text num", maxn=8), "sim", 18, num if q else num * 12, seed=c.seed * 10 + i, note="%d owners" % r)
        c.replay(b, g, FIELDS)


REGISTRY = {"D15": d15, "D16": d16}
