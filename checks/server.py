"""N01, N02: the server process (spec/ServerAuth.tla)."""
FIELDS = ["started", "status", "leak", "held_s", "id", "scopes_s", "caps_s", "allowed_s"]


def n01(c):
    props = "PROPERTY NoEntry NoEffect ReadersOnlyRead ControlIsAdmin OpenOnlyWhenBare\nINVARIANT Refuses\n"
    c.model_check("ServerAuth", "INIT SmallInit\nNEXT SmallNext\nVIEW view\n" + props, "every setup, route and credential")
    b = c.build("server")
    srv = c.build_server()
    t = c.gen("ServerAuth", "", "tree", 897, init="TableInit", nxt="TableNext", note="every route with every credential")
    x = c.gen("ServerAuth", "", "edges", 1, init="BadInit", nxt="Start /\\ idx' = idx", note="misconfigured servers do not start")
    s = c.gen("ServerAuth", "", "sim", 60, 60 if c.quick else 1500, seed=c.seed, note="any setup")
    c.replay(b, [t, x, s], FIELDS, ["-what", "auth", "-server", srv])


KEYS = "plain space slash query pct uni plus hash dots punct quote nl batch long dot dotdot up"
KINDS = "text bin b64 json quoted num null big void"
DATA = ["status", "code", "meta", "v", "kind", "ttl", "codes", "found", "keys_s", "total", "cut"]
ALL = "put get head del owners bput bget bdel junk list"


def S(n=1, keys=KEYS, kinds=KINDS, batch=3, ops=ALL):
    q = lambda xs: "{" + ", ".join('"%s"' % x for x in xs.split()) + "}"
    return "N = %d\nKeys = %s\nKinds = %s\nMaxBatch = %d\nOps = %s" % (n, q(keys), q(kinds), batch, q(ops))


def n02(c):
    c.model_check("Server", "CONSTANTS\n" + S(n=1 if c.quick else 2, keys="plain", kinds="text", batch=2, ops=ALL + " drain")
                  + "\nINIT Init\nNEXT Next\nVIEW view\nCONSTRAINT Bound\nPROPERTY RefusedIsNothing DrainRefuses LastWins EachAlone ListsAll\n", "every request")
    b = c.build("server")
    srv = c.build_server()
    for i, (n, num, keys) in enumerate([(1, 40, KEYS), (3, 60, KEYS), (3, 30, "plain slash")]):
        g = c.gen("Server", S(n=n, keys=keys), "sim", 60, num if c.quick else num * 20, seed=c.seed * 10 + i, note="%d servers" % n)
        c.replay(b, [g], DATA, ["-what", "data", "-server", srv])
    g = c.gen("Server", S(n=1, keys="keys", kinds="text", ops="put get head del bget"), "sim", 8, 20, seed=c.seed * 10 + 4, note="a key like the listing's name")
    c.replay(b, [g], DATA, ["-what", "data", "-server", srv])
    g = c.gen("Server", S(n=3, keys="plain slash uni", ops=ALL + " drain"), "sim", 30, 20 if c.quick else 200, seed=c.seed * 10 + 5, note="draining servers")
    c.replay(b, [g], DATA, ["-what", "data", "-server", srv])


REGISTRY = {"N01": n01, "N02": n02}
