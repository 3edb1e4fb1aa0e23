"""S01, S02: statistics (spec/Stats.tla, spec/StatsTrace.tla)."""
import os


def consts(names, cap, vals, units, mx):
    return "Names = {%s}\nCap = %d\nVals = {%s}\nUnits = {%s}\nMaxCount = %d" % (
        ", ".join('"s%d"' % (k + 1) for k in range(names)), cap, ", ".join(str(v + 4) for v in vals),
        ", ".join(map(str, units)), mx)


def run(fields, inv, concurrent):
    def f(c):
        c.model_check("Stats", "CONSTANTS\n" + consts(2 if not c.quick else 1, 3, [-2, 0, 1, 3], [0], 4 if c.quick else 3) +
                      "\nINIT Init\nNEXT Next\nVIEW view\nCONSTRAINT Bound\n" + inv)
        b = c.build("stats")
        fs = [c.gen("Stats", consts(1, 3, [-4, -1, 0, 3], [61], 99), "edges", 4, note="all histories, near-overflow")]
        for cap in [1, 2, 5, 16] if c.quick else [1, 2, 3, 4, 5, 7, 8, 16, 33]:
            fs.append(c.gen("Stats", consts(3, cap, [-4, -3, -2, -1, 0, 1, 2, 3], [0, 3, 40, 60, 61], 9999), "sim", 4 + cap * 4,
                            (120 if cap < 9 else 50) * (1 if c.quick else 8), note="window of %d" % cap))
        c.replay(b, fs, fields)
        if concurrent:
            t = os.path.join(c.dir, "stats.ndjson")
            if c.run_driver(b, ["-mode", "record", "-out", t, "-rounds", 1500 if c.quick else 20000]) is not None:
                c.validate("StatsTrace", consts(3, 4, [0], [0], 0), t, "concurrent recording", sigf=lambda tr, at: "concurrent")
    return f


REGISTRY = {
    "S01": run(["life_s"], "INVARIANT Consistent\nPROPERTY Isolated\n", True),
    "S02": run(["win_s"], "INVARIANT Consistent PctMonotone VarNonNeg\nPROPERTY Isolated\n", False),
}
