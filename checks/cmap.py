"""M01: the concurrent map (spec/CMap.tla, spec/CMapTrace.tla)."""
import os


def consts(keys, ids, touch=99):
    return "Keys = {%s}\nIds = {%s}\nMaxTouch = %d" % (", ".join(map(str, range(1, keys + 1))), ", ".join(map(str, range(1, ids + 1))), touch)


def m01(c):
    c.model_check("CMap", "CONSTANTS\n" + consts(3 if c.quick else 4, 2, 2) + "\nINIT Init\nNEXT Next\nVIEW view\nCONSTRAINT Bound\nINVARIANT CountIsSize\nPROPERTY A_Map\n")
    b = c.build("cmap")
    fs = [c.gen("CMap", consts(2, 2, 1), "edges", 5 if c.quick else 7, constraint="Bound"),
          c.gen("CMap", consts(12, 9), "sim", 80, 150 if c.quick else 3000)]
    c.replay(b, fs, ["id", "acc", "ok", "seen", "count", "all_s"])
    t = os.path.join(c.dir, "cmap.ndjson")
    if c.run_driver(b, ["-mode", "record", "-out", t, "-rounds", 800 if c.quick else 12000]) is not None:
        c.validate("CMapTrace", consts(3, 40), t, "concurrent histories")


REGISTRY = {"M01": m01}
