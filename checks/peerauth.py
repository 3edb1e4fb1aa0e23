"""D13: authentication of the peer routes (spec/PeerAuth.tla)."""
FIELDS = ["err", "refused", "held_s", "known_s", "draining", "ok"]


def d13(c):
    ops = 'Ops = {"peer"}'
    props = "PROPERTY NoEntry Guarded Symmetric\nINVARIANT NeverHalf\n"
    c.model_check("PeerAuth", "CONSTANTS\n" + ops + "\nINIT Init\nNEXT Next\nVIEW view\n" + props, "policies, requests and peers")
    b = c.build("peerauth", tags="test,verif")
    few = 'p.verify # "v2" /\\ p.token # "other" /\\ p.sign = "" /\\ ~p.open'
    t = c.gen("PeerAuth", 'Ops = {}', "edges", 2, nxt="TableNext", note="policies, every route and credential", constraint=few if c.quick else "")
    s = c.gen("PeerAuth", ops, "sim", 16, 150 if c.quick else 2000, seed=c.seed, note="requests and peers")
    c.replay(b, [t, s], FIELDS)


REGISTRY = {"D13": d13}
