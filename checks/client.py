"""K01-K06: the Go client (spec/Client.tla, spec/ClientTrace.tla)."""

KEYS = ["plain", "slash", "space", "percent", "query", "plus", "uni", "batch", "ctl", "dots", "quote", "long", "semi", "trail"]
VALS = ["empty", "text", "bin", "b64ish", "json", "big", "uni"]
TTLS = ["none", "neg", "sub", "ms1", "frac", "odd", "year"]
STATUSES = [400, 401, 403, 404, 409, 418, 429, 500, 502, 503, 504, 599]
OPTS = ["bearer1", "bearer2", "basic1", "oidc1", "http1", "http2", "http3", "logger", "nillogger", "norefresh", "negrefresh", "slow",
        "noseeds", "blankseeds", "emptybearer", "emptyuser", "emptypw", "nooidcid", "nooidcsecret", "nooidcurl", "nilhttp", "fast"]
GOODOPTS = OPTS[:12]


def s(xs):
    return "{" + ", ".join('"%s"' % x for x in xs) + "}"


def consts(seeds=2, others=3, keys=KEYS, vals=VALS, ttls=TTLS, statuses=STATUSES, maxkeys=4, opts=OPTS, scheme="http", focus=None):
    t = "Seeds = %s\nOthers = %s\nScheme = \"%s\"\nKeyForms = %s\nValForms = %s\nTTLForms = %s\nStatuses = {%s}\nMaxKeys = %d\nCredOpts = %s" % (
        s("s%d" % (k + 1) for k in range(seeds)), s("n%d" % (k + 1) for k in range(others)), scheme, s(keys), s(vals), s(ttls),
        ", ".join(map(str, statuses)), maxkeys, s(opts))
    return t + ("\nFocus = %s" % s(focus) if focus else "")


SMALLVALS = ["empty", "text", "bin", "b64ish"]


def run(focus, nxt, num, props, kw=None, thorough=20):
    def f(c):
        c.model_check("Client", "CONSTANTS\n" + consts(1 if c.quick else 2, 2, ["plain"], ["text"], ["none"], [404, 503], 1, []) +
                      "\nINIT Init\nNEXT NextSmall\nVIEW state\nINVARIANT ViewNeverEmpty\nPROPERTY " + props + "\n")
        b = c.build("client")
        for seeds, others, scheme in [(2, 3, "http"), (1, 2, "https"), (4, 1, "http")]:
            kk = dict(kw or {}, seeds=seeds, others=others, scheme=scheme)
            g = c.gen("Client", consts(**kk), "sim", 12, (num if c.quick else num * thorough) // 3, nxt=nxt)
            t = c.drive(b, g)
            c.validate("ClientTrace", consts(focus=focus, **kk), t, "recorded client behaviour", sigf=lambda tr, at: "client:" + tr[at]["op"])
        if "topo" in focus:
            g = c.gen("Client", consts(2, 2, ["plain"], ["text"], ["none"], [404], 1, []), "sim", 5, 90 if c.quick else 600, nxt="NextLoop", note="background refresh and Close")
            t = c.drive(b, g)
            c.validate("ClientTrace", consts(2, 2, ["plain"], ["text"], ["none"], [404], 1, [], focus=focus), t, "background refresh and Close",
                       sigf=lambda tr, at: "client:" + tr[at]["op"])
    return f


few = dict(keys=["plain", "slash"], vals=SMALLVALS, ttls=["none", "odd"])
REGISTRY = {
    "K01": run(["fail", "req"], "NextTopo", 600, "A_AtMostOnce A_FirstAnswerWins A_AllFailedOnlyIfAll", few),
    "K02": run(["err"], "NextCalls", 600, "A_FirstAnswerWins", few),
    "K03": run(["topo"], "NextTopo", 600, "NeverDead Recovers", few),
    "K04": run(["req", "items", "err"], "NextBatch", 600, "A_FirstAnswerWins"),
    "K05": run(["req", "items", "err"], "NextCalls", 600, "A_FirstAnswerWins"),
    "K06": run(["cred"], "NextCred", 600, "A_FirstAnswerWins", few),
}
