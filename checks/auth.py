"""A01-A03: authentication, authorisation and policy loading (spec/Auth.tla, spec/Loader.tla)."""

BEARER = ["exact", "lower", "upper", "noscheme", "prefix", "suffix", "dspace", "swap", "tab", "quoted", "basic", "basicpw",
          "double", "tail", "scheme2"]
BASIC = ["exact", "wrongpw", "otherpw", "emptypw", "pwprefix", "pwsuffix", "pwcase", "pwspace", "usercase", "userprefix",
         "usersuffix", "userspace", "nouser", "lowerscheme", "hash", "nocolon", "plaintext", "bearer"]
JUNK = ["basic", "bearer", "notb64", "colon", "nocolon", "badutf", "digest", "long", "null", "padding"]
CERT = ["exact", "viaca", "inter", "case", "sub", "pre", "cut", "space", "san", "ou", "emptycn", "untrusted"]


def s(xs):
    return "{" + ", ".join('"%s"' % x for x in xs) + "}"


def consts(n, bearer, basic, junk, cert):
    return "Toks = %s\nUsers = %s\nCNs = %s\nBearerForms = %s\nBasicForms = %s\nJunk = %s\nTransports = %s\nCertForms = %s" % (
        s("t%d" % (k + 1) for k in range(n)), s("u%d" % (k + 1) for k in range(n)), s("c%d" % (k + 1) for k in range(n)),
        s(bearer), s(basic), s(junk), s(["plain", "tls", "tlsany"]), s(cert))


FIELDS = ["status", "ran", "id", "scopes_s", "caps_s"]


def a01(c):
    few = (["exact", "swap", "noscheme"], ["exact", "wrongpw"], ["digest"], ["exact", "case"])
    c.model_check("Auth", "CONSTANTS\n" + consts(1, *few) + "\nINIT InitSmall\nNEXT Next\nVIEW view\nPROPERTY A_NoCredNoEntry A_RanIffOk A_ScopeHeld A_OnlyKnown A_PlainBasic A_CertProven\n")
    b = c.build("auth")
    # heavier weight on credentials that match: the policy decides
    good = (["exact"], ["exact"], ["digest"], ["exact", "viaca"])
    e = c.gen("Auth", consts(1, ["exact"], ["exact"], ["null"], ["exact"]), "edges", 1, init="InitSmall", note="every small policy x every exact request")
    x = c.gen("Auth", consts(3, *good), "sim", 15, 500 if c.quick else 8000, nxt="NextSim")
    y = c.gen("Auth", consts(2, BEARER, BASIC, JUNK, CERT), "sim", 15, 250 if c.quick else 8000, nxt="NextSim")
    c.replay(b, [e, x, y], FIELDS)


def a02(c):
    c.model_check("Auth", "CONSTANTS\n" + consts(1, BEARER, BASIC, JUNK, CERT) + "\nINIT InitSmall\nNEXT Next\nVIEW view\nPROPERTY A_NoCredNoEntry A_PlainBasic A_CertProven\n")
    b = c.build("auth")
    e = c.gen("Auth", consts(2, BEARER, BASIC, JUNK, CERT), "sim", 25, 700 if c.quick else 12000, nxt="NextSim")
    # every form of every credential against the policy that has it
    f = c.gen("Auth", consts(1, BEARER, BASIC, JUNK, []), "edges", 1, init="InitSmall",
              constraint='pol.verify = "none" /\\ pol.toks # {} /\\ pol.users # {}')
    g = c.gen("Auth", consts(1, [], [], [], CERT), "edges", 1, init="InitSmall", constraint='pol.verify = "none" /\\ pol.cns # {}')
    c.replay(b, [e, f, g], FIELDS)


def a03(c):
    c.model_check("Loader", "CONSTANTS\nMaxEntries = 2\nINIT Init\nNEXT NextSmall\nVIEW view\nPROPERTY A_FailClosed A_AnonOnlyIfWritten A_NoInvention\n", workers=1)
    b = c.build("auth")
    e = c.gen("Loader", "MaxEntries = 3", "edges", 1, nxt="NextSmall", note="every single mistake")
    m = c.gen("Loader", "MaxEntries = 3", "sim", 20, 300 if c.quick else 4000)
    c.replay(b, [e, m], ["err", "leak", "pol"], ["-mode", "loader"])


REGISTRY = {"A01": a01, "A02": a02, "A03": a03}
