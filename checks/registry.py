"""Z01, Z02: serializers and plugin registries (spec/Registry.tla)."""

VALUES = ["nil", "true", "false", "zero", "neg", "maxint", "minint", "maxuint", "float", "tiny", "huge", "empty", "text", "uni", "html", "ctl",
          "bytes", "nobytes", "big", "ints", "none", "strs", "map", "intkeys", "nested", "struct", "any", "dur", "array", "ptr", "i8", "f32", "nan", "inf", "chan", "func"]
NAMES = ["", "lru", "lfu", "clock", "cawolfu", "default", "msgpack", "LRU", "Default", "lru ", "arc", "json", "mine"]


def s(xs):
    return "{" + ", ".join('"%s"' % x for x in xs) + "}"


def consts(kinds, regs, names, customs, slots, values):
    return "Kinds = %s\nRegs = %s\nNames = %s\nCustoms = %s\nSlots = %s\nValues = %s" % tuple(map(s, (kinds, regs, names, customs, slots, values)))


def z01(c):
    c.model_check("Registry", "CONSTANTS\n" + consts(["serializer"], ["r1"], ["", "default"], ["c1"], ["x", "y"], VALUES[:6]) +
                  "\nINIT Init\nNEXT NextSer\nVIEW view\nPROPERTY BlobStays\n")
    b = c.build("registry")
    k = ["serializer"]
    fs = [c.gen("Registry", consts(k, ["r1"], [""], ["c1"], ["x"], VALUES), "edges", 3, nxt="NextSer", note="every value after every value"),
          c.gen("Registry", consts(k, ["r1"], [""], ["c1"], ["x", "y", "z"], VALUES), "sim", 40, 150 if c.quick else 4000, nxt="NextSer"),
          c.gen("Registry", consts(k, ["r1", "r2"], NAMES, ["c1", "c2"], ["x"], ["text"]), "sim", 40, 200 if c.quick else 4000, nxt="NextReg")]
    c.replay(b, fs, ["err", "v", "given", "fresh"])


def z02(c):
    k = ["eviction", "stats"]
    c.model_check("Registry", "CONSTANTS\n" + consts(k, ["r1", "r2"], ["", "lru", "default"], ["c1"], ["x"], ["text"]) +
                  "\nINIT Init\nNEXT NextReg\nVIEW view\nPROPERTY Independent OnlyRegistered\n")
    b = c.build("registry")
    fs = [c.gen("Registry", consts(k, ["r1"], NAMES[:8], ["c1"], ["x"], ["text"]), "edges", 3, nxt="NextReg", constraint='last.op # "registermany"'),
          c.gen("Registry", consts(k, ["r1", "r2", "r3"], NAMES, ["c1", "c2"], ["x"], ["text"]), "sim", 40, 300 if c.quick else 6000, nxt="NextReg")]
    c.replay(b, fs, ["given", "fresh"])


REGISTRY = {"Z01": z01, "Z02": z02}
