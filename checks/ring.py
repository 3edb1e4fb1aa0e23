"""C01: hash-ring placement (spec/Ring.tla, spec/RingTrace.tla)."""
import os


def c01(c):
    shapes = [('{"a", "b", "c"}', 2, 3)] if c.quick else [('{"a", "b", "c"}', 3, 4), ('{"a", "b", "c", "d"}', 2, 3)]
    for nodes, per, r in shapes:
        c.model_check("Ring", "CONSTANTS\nNodes = %s\nPerNode = %d\nMaxR = %d\n" % (nodes, per, r) +
                      "INIT Init\nNEXT Next\nINVARIANT Count Distinct WalksAgree\nPROPERTY LeaveRule JoinRule\n",
                      "all point orders, key positions, member sets; %s x %d" % (nodes, per))
    b = c.build("ring")
    t = os.path.join(c.dir, "ring.ndjson")
    rep = c.run_driver(b, ["-out", t, "-rounds", 350 if c.quick else 6000])
    if rep is None:
        return
    c.cov["placement_observations"] = rep["observations"]
    c.validate("RingTrace", "", t, "placements of several nodes in two processes", chunk=25,
               sigf=lambda tr, at: "placement")


REGISTRY = {"C01": c01}
