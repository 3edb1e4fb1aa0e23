"""C02, C03, C04: membership, ring agreement and observers (spec/Membership.tla)."""

def consts(nodes, inc, obs, ver):
    return "Nodes = {%s}\nMaxInc = %d\nMaxObs = %d\nMaxVer = %d" % (
        ", ".join('"%s"' % n for n in nodes), inc, obs, ver)


def spec_check(c, inv):
    n, v = (2, 5) if c.quick else (3, 5)
    nodes = ["a", "b", "c"][:n]
    c.model_check("Membership", "CONSTANTS\n" + consts(nodes, 2, 2, v) +
                  "\nINIT Init\nNEXT Next\nVIEW view\nCONSTRAINT Bound\n" + inv,
                  "Nodes=%d MaxVer=%d" % (n, v))


def run(fields, inv, rec):
    def f(c):
        spec_check(c, inv)
        b = c.build("membership")
        e = c.gen("Membership", consts(["a", "b"], 2, 2, 4), "edges", 7, constraint="ver < 4")
        s = c.gen("Membership", consts(["a", "b", "c", "d"], 3, 3, 99), "sim", 40, 300 if c.quick else 6000)
        c.replay(b, [e, s], fields, ["-vnodes", "8"])
        if not c.quick:
            c.replay(b, [s], fields, ["-vnodes", "64"])
        record(c, b, rec, 3000 if c.quick else 40000)
        if not c.quick:
            rb = c.build("membership", race=True)
            record(c, rb, rec, 1500)
    return f


def record(c, b, rec, rounds):
    import os
    t = os.path.join(c.dir, "mem-%s.ndjson" % os.path.basename(b))
    if c.run_driver(b, ["-mode", "record:" + rec, "-out", t, "-rounds", rounds, "-vnodes", 64]) is None:
        return
    c.validate("MembershipTrace", consts(["a", "b", "c"], 3, 3, 99) + "\nThreads = {1, 2, 3}", t,
               "concurrent histories", sigf=lambda tr, at: "concurrent:" + rec)


REGISTRY = {
    "C02": run(["ring_s", "nodes_s"], "INVARIANT RingMatches\n", "ring"),
    "C03": run(["ret", "ver", "nodes_s"], "PROPERTY VerMonotone NoPhantom IncGrows\n", "nodes"),
    "C04": run(["events"], "PROPERTY EventPerChange\n", "events"),
}
