"""V01-V03: eviction algorithms (spec/Eviction.tla, spec/EvictionTrace.tla)."""
import os


def consts(keys, vals, algos, caps, shards, touch=99):
    return "Keys = {%s}\nVals = {%s}\nAlgos = {%s}\nCaps = {%s}\nShardCounts = {%s}\nMaxTouch = %d" % (
        ", ".join(map(str, range(1, keys + 1))), ", ".join(map(str, range(1, vals + 1))),
        ", ".join('"%s"' % a for a in algos), ", ".join(map(str, caps)), ", ".join(map(str, shards)), touch)


INV = "INVARIANT Fits Once Routed OrderIsDrain\nPROPERTY A_Set A_Evict\n"


def run(algos, exact):
    def f(c):
        c.model_check("Eviction", "CONSTANTS\n" + consts(3 if c.quick else 4, 1, algos, [0, 1, 2, 3], [0, 2], 2 if c.quick else 3) +
                      "\nINIT Init\nNEXT Next\nVIEW view\nCONSTRAINT Bound\n" + INV)
        b = c.build("eviction")
        if exact:
            fs = [c.gen("Eviction", consts(3, 2, algos, [0, 1, 2, 3], [0], 3), "edges", 5 if c.quick else 6, constraint="Bound",
                        note="every transition up to the depth")]
            for keys, caps in [(5, [1, 2, 3, 4]), (12, [4, 8, 11])]:
                fs.append(c.gen("Eviction", consts(keys, 3, algos, caps, [0]), "sim", 60 if c.quick else 150, 150 if c.quick else 2000))
            c.replay(b, fs, ["got", "key", "order", "len"])
        fs = [c.gen("Eviction", consts(3, 1, algos, [0, 1, 2, 3], [0] if not exact else [2], 3), "edges", 4 if c.quick else 5, constraint="Bound")]
        al = algos if "arc" not in algos else [a for a in algos if a != "arc"]
        fs.append(c.gen("Eviction", consts(8, 2, al, [1, 2, 3], [1, 2, 4]), "sim", 50 if c.quick else 120, 120 if c.quick else 1500))
        if not exact:
            for keys, caps in [(4, [1, 2, 3]), (8, [2, 4, 6])]:
                fs.append(c.gen("Eviction", consts(keys, 2, ["clock", "arc"], caps, [0]), "sim", 50 if c.quick else 120, 150 if c.quick else 1500))
        k = consts(12, 3, algos, [0], [0])
        c.validate("EvictionTrace", k, c.drive(b, fs), "driven")
        t = os.path.join(c.dir, "ev.ndjson")
        if c.run_driver(b, ["-mode", "record", "-out", t, "-rounds", 400 if c.quick else 6000], env={"ALGOS": ",".join(algos)}) is not None:
            c.validate("EvictionTrace", k, t, "concurrent histories")
    return f


REGISTRY = {
    "V01": run(["lru", "cawolfu"], True),
    "V02": run(["lfu"], True),
    "V03": run(["lru", "lfu", "clock", "cawolfu", "arc"], False),
}
