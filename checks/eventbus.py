"""E01-E03: the event bus (spec/Bus.tla, spec/BusTrace.tla)."""
import os


def consts(slots, cap, ver, bursts):
    return "Slots = {%s}\nCap = %d\nMaxVer = %d\nBursts = {%s}" % (
        ", ".join(map(str, range(1, slots + 1))), cap, ver, ", ".join(map(str, bursts)))


def run(fields, prop, rec):
    def f(c):
        n, v = (2, 5) if c.quick else (3, 6)
        c.model_check("Bus", "CONSTANTS\n" + consts(n, 2, v, [1, 3]) +
                      "\nINIT Init\nNEXT Next\nVIEW view\nCONSTRAINT Bound\nINVARIANT TypeOK\nPROPERTY " + prop,
                      "Slots=%d Cap=2 MaxVer=%d" % (n, v))
        b = c.build("eventbus")
        e = c.gen("Bus", consts(2, 16, 99, [1, 15]), "edges", 5 if c.quick else 6, constraint="ver <= 31")
        s = c.gen("Bus", consts(4, 16, 9999, [1, 2, 7, 16]), "sim", 60, 400 if c.quick else 5000)
        c.replay(b, [e, s], fields)
        record(c, b, rec, 2500 if c.quick else 30000)
        if not c.quick:
            record(c, c.build("eventbus", race=True), rec, 1500)
    return f


def record(c, b, rec, rounds):
    t = os.path.join(c.dir, "bus-%s.ndjson" % os.path.basename(b))
    if c.run_driver(b, ["-mode", "record:" + rec, "-out", t, "-rounds", rounds]) is None:
        return
    c.validate("BusTrace", consts(2, 16, 9999, [1]) + "\nThreads = {1, 2, 3}", t, "concurrent histories",
               sigf=lambda tr, at: "concurrent:" + rec)


REGISTRY = {
    "E01": run(["dropped", "got"], "Accounted", "ids"),
    "E02": run(["rets", "vers"], "VersionStep", "order"),
    "E03": run(["n", "end", "dropped"], "EndedStaysEnded", "end"),
}
