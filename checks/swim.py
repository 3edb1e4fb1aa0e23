"""D08: failure detection (spec/Swim.tla)."""


def K(n=3, suspect=0, dead=0, k=0, sample=0, inc=3, ticks=0, ops=""):
    return "N = %d\nSuspectAfter = %d\nDeadAfter = %d\nK = %d\nSample = %d\nMaxInc = %d\nMaxTicks = %d\nOps = {%s}" % (
        n, suspect, dead, k, sample, inc, ticks, ", ".join('"%s"' % o for o in ops.split()))


def d08(c):
    props = "PROPERTY IncGrows Adopted Refuted Detected PrunedOnlyLate\nINVARIANT SelfAlive\n"
    tail = "\nINIT Init\nNEXT Next\nVIEW view\nCONSTRAINT Bound\n" + props
    c.model_check("Swim", "CONSTANTS\n" + K(n=2, suspect=2, dead=3, inc=c.quick and 2 or 3, ticks=4, ops="hb gossip hear link tick") + tail, "timeouts, 2 nodes")
    c.model_check("Swim", "CONSTANTS\n" + K(n=3, k=1, inc=2, ops="hb gossip link") + tail, "relays, 3 nodes")
    c.model_check("Swim", "CONSTANTS\n" + K(n=2, inc=3, ops="storm") + tail.replace("Refuted", "Refuted Highest"), "concurrent claims")
    b = c.build("swim", tags="test,verif")
    q = c.quick
    cases = [
        (dict(n=3, k=0), "hb gossip hear hear2 link cut", 30, 80),
        (dict(n=4, k=1), "hb gossip hear link cut", 30, 80),
        (dict(n=4, k=2), "hb gossip link", 30, 80),
        (dict(n=2, k=0), "storm", 30, 50),
        (dict(n=4, k=1, sample=2), "hb gossip link cut", 25, 60),
        (dict(n=3, suspect=1, dead=3, ticks=9), "hb gossip cut tick", 25, 60),
        (dict(n=3, suspect=2, dead=0, k=1, ticks=9), "hb gossip hear link tick", 25, 60),
        (dict(n=3, suspect=0, dead=2, ticks=9), "hb gossip hear cut tick", 25, 60),
    ]
    seq = 0
    for kw, ops, depth, num in cases:
        seq += 1
        g = c.gen("Swim", K(inc=6, ops=ops, **kw), "sim", depth, num if q else num * 15, seed=c.seed * 100 + seq, note=str(kw))
        for w in ("mem", "http") if "ticks" not in kw else ("mem",):
            c.validate("SwimTrace", K(inc=0, ops="", **kw), c.drive(b, g, ["-wire", w]), "wire %s %s" % (w, kw))


REGISTRY = {"D08": d08}
