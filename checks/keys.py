"""D11: cluster key listing (spec/Keys.tla, spec/Glob.tla)."""


def K(n=3, shards=4, patlen=4, ops="put drop state cut list"):
    return "N = %d\nShards = %d\nPatLen = %d\nOps = {%s}" % (n, shards, patlen, ", ".join('"%s"' % o for o in ops.split()))


def d11(c):
    c.model_check("Keys", "CONSTANTS\n" + K(n=1, patlen=2 if c.quick else 3) + "\nINIT Init\nNEXT AllNext\nINVARIANT GlobFacts\nVIEW view\n", "pattern facts")
    b = c.build("keys", tags="test,verif")
    q = c.quick
    a = c.gen("Keys", K(n=2, shards=2, patlen=3), "edges", 3, init="Init", nxt="AllNext", note="every short pattern")
    c.validate("KeysTrace", K(n=2, shards=2, ops=""), c.drive(b, a), "every short pattern")
    for i, (n, sh, num) in enumerate([(3, 4, 120), (4, 1, 80), (2, 64, 60)]):
        g = c.gen("Keys", K(n=n, shards=sh), "sim", 30, num if q else num * 15, seed=c.seed * 10 + i, note="%d nodes" % n)
        for w in ("mem", "http"):
            c.validate("KeysTrace", K(n=n, shards=sh, ops=""), c.drive(b, g, ["-wire", w]), "wire %s, %d nodes" % (w, n))
    for i, (sh, num) in enumerate([(1, 40), (3, 60)]):
        g = c.gen("Keys", K(n=2, shards=sh, ops="put drop pages list"), "sim", 20, num if q else num * 15, seed=c.seed * 10 + 5 + i, note="pages")
        c.validate("KeysTrace", K(n=2, shards=sh, ops=""), c.drive(b, g, ["-wire", "http"]), "pages")
    g = c.gen("Keys", K(n=2, shards=2048), "sim", 8, 4 if q else 30, seed=c.seed * 10 + 9, note="many shards")
    c.validate("KeysTrace", K(n=2, shards=2048, ops=""), c.drive(b, g, ["-wire", "http"]), "many shards")


REGISTRY = {"D11": d11}
