"""W01: the worker pool (spec/Pool.tla, spec/PoolTrace.tla)."""
import os


def consts(sizes, jobs):
    return "Sizes = {%s}\nMaxJobs = %d" % (", ".join(map(str, sizes)), jobs)


def w01(c):
    inv = "INVARIANT TypeOK OnceEach Limit Closing\nPROPERTY A_Closed\n"
    c.model_check("Pool", "CONSTANTS\n" + consts([1, 2, 3], 4 if c.quick else 6) + "\nINIT Init\nNEXT Next\nVIEW view\n" + inv)
    c.model_check("Pool", "CONSTANTS\n" + consts([1, 2], 3 if c.quick else 4) + "\nSPECIFICATION Spec\nPROPERTY L_Ends\n", workers=1,
                  note="liveness: Shutdown returns when jobs end")
    b = c.build("pool")
    fs = [c.gen("Pool", consts([1, 2, 3], 4), "edges", 6 if c.quick else 8, note="every transition up to the depth"),
          c.gen("Pool", consts([1, 2, 3, 4], 40), "sim", 60, 250 if c.quick else 2500)]
    k = consts(range(1, 6), 100)
    c.validate("PoolTrace", k, c.drive(b, fs), "driven")
    t = os.path.join(c.dir, "pool.ndjson")
    if c.run_driver(b, ["-mode", "record", "-out", t, "-rounds", 500 if c.quick else 8000]) is not None:
        c.validate("PoolTrace", k, t, "concurrent histories")


REGISTRY = {"W01": w01}
