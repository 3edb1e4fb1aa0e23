"""D12: fault injection on the peer transport (spec/Chaos.tla)."""
KINDS = 'Kinds = {"set", "get", "del", "health", "relay", "gossip", "merkle", "keys"}'


def K(ways="before after twice set reset", ops="drop latency call burst"):
    q = lambda s: ", ".join('"%s"' % o for o in s.split())
    return "Ways = {%s}\n%s\nOps = {%s}" % (q(ways), KINDS, q(ops))


def d12(c):
    c.model_check("Chaos", "CONSTANTS\n" + K(ops="drop latency call") + "\nINIT Init\nNEXT Next\nVIEW view\nCONSTRAINT Bound\n"
                  "PROPERTY Disabled Certain OnceOrCounted\nINVARIANT InRange\n", "rates and calls")
    b = c.build("chaos", tags="test,verif")
    q = c.quick
    e = c.gen("Chaos", K(ops="drop call"), "edges", 3, note="every setting and call", constraint="drops + lates <= 1")
    s = c.gen("Chaos", K(), "sim", 30, 200 if q else 3000, seed=c.seed, note="settings and calls")
    o = c.gen("Chaos", K(ways="none", ops="call burst"), "sim", 10, 20, seed=c.seed, note="no fault injection")
    for f, n in ((e, "every setting and call"), (s, "settings and calls"), (o, "no fault injection")):
        c.validate("ChaosTrace", K(), c.drive(b, f), n)


REGISTRY = {"D12": d12}
