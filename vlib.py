"""Shared machinery of the checks: build drivers against /repo's working tree,
run TLC (model checking, behaviour generation, trace validation), judge, and
write evidence.  Exit codes: 0 held, 1 violation (real-code behaviour the
specification forbids), 3 error of the check itself."""
import json, os, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
GOENV = {
    "PATH": "/opt/veriftools/go1.26.10/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "GOTOOLCHAIN": "local", "GOFLAGS": "-mod=mod", "GOPROXY": "off",
    "GOPATH": "/root/go", "GOCACHE": "/root/.cache/go-build", "HOME": "/root", "LANG": "C.UTF-8",
    "GOSUMDB": "off", "GONOSUMDB": "*", "GONOSUMCHECK": "1",
}
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.violations = []       # dicts: {what, replay}
        self.known_hits = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "steps_validated_against_impl": 0, "samples": [], "runs": []}
        self.assumptions = []
        self.evdir = os.path.join(VERIF, "evidence")
        os.makedirs(self.evdir, exist_ok=True)
        self.repn = 0
        for f in os.listdir(self.evdir):
            if f.startswith("replay-%s-" % prop):
                os.unlink(os.path.join(self.evdir, f))

    # ---------------------------------------------------------------- go
    def build(self, driver, race=False, tags=""):
        """Build drivers/<driver> as package /repo/verifdrv/<driver> via overlay."""
        ovl = {}
        for base in {driver, "vlib"}:
            root = os.path.join(VERIF, "drivers", base)
            for dp, _, fns in os.walk(root):
                for fn in fns:
                    if fn.endswith(".go"):
                        rel = os.path.relpath(os.path.join(dp, fn), os.path.join(VERIF, "drivers"))
                        dst = os.path.join(REPO, "internal", "verifdrv", rel)
                        ovl[dst] = os.path.join(dp, fn)
        ovf = os.path.join(self.dir, "overlay-%s.json" % driver)
        json.dump({"Replace": ovl}, open(ovf, "w"))
        mod = self.modfile()
        out = os.path.join(self.dir, driver + (".race" if race else ""))
        cmd = ["go", "build", "-overlay", ovf, "-modfile", mod, "-o", out]
        if race:
            cmd.append("-race")
        if tags:
            cmd += ["-tags", tags]
        cmd.append("./internal/verifdrv/" + driver)
        r = subprocess.run(cmd, cwd=REPO, env=GOENV, capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("driver %s does not build:\n%s" % (driver, r.stderr[-4000:]))
        return out

    def modfile(self):
        mod = os.path.join(self.dir, "go.mod")
        if not os.path.exists(mod):
            s = open(os.path.join(REPO, "go.mod")).read()
            s += "\nreplace github.com/hyp3rd/sectools => %s/stub/sectools\n" % VERIF
            open(mod, "w").write(s)
            shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(self.dir, "go.sum"))
        return mod

    def build_server(self):
        out = os.path.join(self.dir, "hypercache-server")
        r = subprocess.run(["go", "build", "-modfile", self.modfile(), "-o", out, "./cmd/hypercache-server"],
                           cwd=REPO, env=GOENV, capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("server does not build:\n%s" % r.stderr[-4000:])
        return out

    def run_driver(self, binary, args, timeout=600, env=None):
        """Run a driver; returns its parsed report (last stdout line is JSON).
        A crash of the code under test (Go panic / fatal error) is real-code behaviour
        no specification allows, and is reported as a violation."""
        e = dict(GOENV)
        e["VERIF_SEED"] = str(self.seed)
        e["VERIF_SCRATCH"] = self.dir
        if env:
            e.update(env)
        try:
            r = subprocess.run([binary] + [str(a) for a in args], cwd=self.dir, env=e,
                               capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            raise CheckError("driver %s timed out after %ss" % (os.path.basename(binary), timeout)) from ex
        if r.returncode != 0:
            m = re.search(r"^(panic:|fatal error:|unexpected fault).*$", r.stderr, re.M)
            if m and "hyp3rd/hypercache" in r.stderr and "verif-driver:" not in m.group(0):
                p = self.replay_file({"driver": os.path.basename(binary), "args": [str(a) for a in args],
                                      "crash": m.group(0), "stderr": r.stderr[-20000:]})
                self.violations.append({"what": "the code under test crashed: " + m.group(0), "replay": p})
                return None
            raise CheckError("driver %s failed (%d):\n%s\n%s" % (os.path.basename(binary), r.returncode,
                                                                   r.stdout[-1500:], r.stderr[-4000:]))
        line = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else ""
        try:
            return json.loads(line)
        except Exception as ex:
            raise CheckError("driver %s: no report: %r" % (os.path.basename(binary), line[:400])) from ex

    # ---------------------------------------------------------------- tlc
    def tlc(self, workdir, module, cfg, extra=(), workers=8, timeout=800, env=None, heap="6g"):
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss32m", "-cp", JAR, "tlc2.TLC",
               "-metadir", os.path.join(workdir, "meta-%d" % time.monotonic_ns()),
               "-workers", str(workers), "-config", cfg, *extra, module]
        try:
            r = subprocess.run(cmd, cwd=workdir, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            raise CheckError("TLC timed out on %s/%s" % (module, cfg)) from ex
        return r.returncode, re.sub(r"(?m)^(Parsing|Semantic proc|Linting|Running|TLC2).*\n", "", r.stdout + r.stderr)

    def specdir(self):
        d = os.path.join(self.dir, "spec")
        if not os.path.isdir(d):
            shutil.copytree(os.path.join(VERIF, "spec"), d)
        return d

    @staticmethod
    def counts(out):
        m = None
        for m in re.finditer(r"(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found", out):
            pass
        if m:
            return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
        m = re.search(r"The number of states generated: (\d+)", out)
        if m:
            return int(m.group(1)), int(m.group(1))
        return 0, 0

    def cfg(self, name, text):
        p = os.path.join(self.specdir(), name)
        open(p, "w").write(text)
        return name

    def model_check(self, module, cfgtext, note="", workers=8, timeout=800, deadlock=False):
        """Exhaustive check of a bounded model of the specification itself."""
        d = self.specdir()
        c = self.cfg("%s_mc%d.cfg" % (module, time.monotonic_ns()), cfgtext)
        extra = [] if deadlock else ["-deadlock"]
        t = time.time()
        rc, out = self.tlc(d, module, c, extra, workers, timeout)
        if rc != 0 and workers > 1:      # lazily evaluated shared values race between TLC workers; one worker decides
            rc, out = self.tlc(d, module, c, extra, 1, timeout)
        if rc != 0:
            raise CheckError("model checking %s failed (the specification, not the code):\n%s" % (module, out[:6000]))
        g, s = self.counts(out)
        self.cov["states"] += s
        self.cov["transitions"] += g
        self.cov["runs"].append({"kind": "model check", "module": module, "distinct_states": s,
                                 "states_generated": g, "wall_s": round(time.time() - t, 1), "note": note})

    def gen(self, module, consts, mode, depth, num=0, seed=None, constraint="", note="", timeout=600, init=None, nxt=None):
        """Generate behaviours of `module`. mode 'edges': one behaviour per transition of the
        bounded state graph (up to depth). mode 'sim': num random behaviours of length depth.
        mode 'tree': every operation sequence of length depth."""
        d = self.specdir()
        tag = "%s_%s_%d" % (module, mode, time.monotonic_ns())
        out = os.path.join(self.dir, tag + ".ndjson")
        open(out, "w").close()
        wrap = "Gen" + tag
        body = ["---- MODULE %s ----" % wrap, "EXTENDS %s, CSV, Json, IOUtils" % module, "VARIABLE hist",
                "GInit == %s /\\ hist = <<last>>" % (init or "Init"),
                "GNext == %s /\\ hist' = Append(hist, last')" % (nxt or "Next"),
                "GView == view",
                "GBound == Len(hist) <= %d%s" % (depth + 1, (" /\\ (" + constraint + ")") if constraint else ""),
                "GEdge == CSVWrite(\"%1$s\", <<ToJson(hist')>>, \"" + out + "\")",
                "GDone == IF Len(hist) = %d THEN CSVWrite(\"%%1$s\", <<ToJson(hist)>>, \"%s\") ELSE TRUE" % (depth + 1, out),
                "====", ""]
        open(os.path.join(d, wrap + ".tla"), "w").write("\n".join(body))
        cfg = "CONSTANTS\n" + consts + "\nINIT GInit\nNEXT GNext\n" if consts.strip() else "INIT GInit\nNEXT GNext\n"
        extra = ["-deadlock"]
        if mode == "edges":
            cfg += "VIEW GView\nCONSTRAINT GBound\nACTION_CONSTRAINT GEdge\n"
        elif mode == "tree":
            cfg += "CONSTRAINT GBound\nINVARIANT GDone\n"
        else:
            if re.search(r"^EXTENDS.*\bRnd\b", open(os.path.join(d, module + ".tla")).read(), re.M):
                cfg = "CONSTANTS\nPick <- PickOne\n" + cfg
            cfg += "INVARIANT GDone\n"
            extra += ["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-seed", str(seed if seed is not None else self.seed)]
        c = self.cfg(wrap + ".cfg", cfg)
        t = time.time()
        rc, txt = self.tlc(d, wrap, c, extra, 1, timeout)
        if rc != 0:
            raise CheckError("generation from %s failed:\n%s" % (module, txt[-4000:]))
        g, s = self.counts(txt)
        n = self.prune(out, mode)
        ops = {}
        for l in open(out):
            for o in re.findall(r'"op":"([^"]*)"', l):
                ops[o] = ops.get(o, 0) + 1
        if n == 0:
            raise CheckError("generation from %s gave no behaviour:\n%s" % (module, txt[-2000:]))
        if mode != "sim":
            self.cov["states"] += s
            self.cov["transitions"] += g
        self.cov["runs"].append({"kind": "generate " + mode, "module": module, "behaviours": n, "depth": depth, "operations": ops,
                                 "distinct_states": s, "states_generated": g, "wall_s": round(time.time() - t, 1), "note": note})
        return out

    @staticmethod
    def prune(out, mode):
        """CSVWrite quotes the JSON text; unquote it.  Edge behaviours that are prefixes of others are
        dropped (replaying the longer one covers them); of the random behaviours (TLC evaluates the
        invariant on every successor of the last state) one per random walk is kept."""
        hs = []
        for l in open(out):
            l = l.strip()
            if l:
                hs.append(json.loads(l) if l.startswith('"') else l)
        if mode == "edges":
            sep = lambda h: h[:-1]            # "[a,b]" is a prefix of "[a,b,c]" up to the bracket
            hs = sorted(set(hs))
            keep = []
            for i, h in enumerate(hs):
                stem = sep(h) + ","
                j = i + 1
                # ',' sorts before ']' so extensions sort before their prefix
                if keep and keep[-1].startswith(stem):
                    continue
                keep.append(h)
            hs = keep
        elif mode == "sim":
            groups, keep = {}, []
            for h in hs:
                k = h[:max(h.rfind('{"op":'), 1)]
                groups.setdefault(k, []).append(h)
            for i, g in enumerate(groups.values()):
                keep.append(g[i % len(g)])
            hs = keep
        open(out, "w").write("".join(h + "\n" for h in hs))
        return len(hs)

    def replay(self, binary, files, fields, extra=(), timeout=600, what="implementation deviates from the specification", env=None):
        """Replay generated behaviours into the real code; every mismatch is a violation."""
        if isinstance(files, str):
            files = [files]
        for f in files:
            rep = self.run_driver(binary, ["-in", f, "-fields", ",".join(fields), *extra], timeout, env)
            if rep is None:
                continue
            self.cov["traces_validated_against_impl"] += rep["traces"]
            self.cov["steps_validated_against_impl"] += rep["steps"]
            if rep["traces"] == 0 or rep["steps"] == 0 or rep.get("compared", 1) == 0:
                raise CheckError("nothing was compared in replay of %s" % f)
            self.cov["runs"].append({"kind": "replay into the real code", "driver": os.path.basename(binary),
                                     "traces": rep["traces"], "steps": rep["steps"], "compared_fields": rep.get("compared", 0)})
            if len(self.cov["samples"]) < 3 and rep.get("sample"):
                self.cov["samples"].append(rep["sample"])
            for m in rep.get("mismatches") or []:
                self.report(m, what)

    def drive(self, binary, files, extra=(), timeout=600, env=None, what="the code under test did not complete a step"):
        """Drive the real code through generated behaviours and record what it did; returns the trace
        file for validate().  Used where the specification leaves the code a choice."""
        if isinstance(files, str):
            files = [files]
        res = os.path.join(self.dir, "driven-%d.ndjson" % time.monotonic_ns())
        with open(res, "w") as dst:
            for f in files:
                out = f + ".driven"
                rep = self.run_driver(binary, ["-in", f, "-out", out, *extra], timeout, env)
                if rep is None:
                    continue
                for m in rep.get("mismatches") or []:
                    self.report(m, what)
                dst.write(open(out).read())
        return res

    def report(self, m, what):
        sig = m.get("sig") or ""
        if self.is_known(sig, m):
            return
        p = self.replay_file(m)
        self.violations.append({"what": "%s: %s" % (what, m.get("summary", sig)), "replay": p})

    def validate(self, module, consts, tracefile, note="", timeout=600, what="recorded behaviour is not allowed by the specification",
                 workers=8, chunk=400, sigf=None):
        """Check recorded traces (one JSON array per line) against Trace module `module`.
        The module reads IOEnv.TRACES (ndjson) and must define TraceInit/TraceNext with variable
        `tid` and mark accepted traces by  TLCSet(tid, TRUE)  (see TraceLib.tla)."""
        lines = [l for l in open(tracefile).read().splitlines() if l.strip()]
        if not lines and self.violations:
            return []
        if not lines:
            raise CheckError("no traces recorded for %s" % module)
        chunk = max(min(chunk, len(lines)), min(-(-len(lines) // 7), 5000))   # few JVMs: warm-up dominates
        chunks = [lines[i:i + chunk] for i in range(0, len(lines), chunk)]
        d = self.specdir()
        c = self.cfg("%s_tr%d.cfg" % (module, time.monotonic_ns()),
                     ("CONSTANTS\n" + consts + "\n" if consts.strip() else "") +
                     "INIT TraceInit\nNEXT TraceNext\nVIEW TraceView\nPOSTCONDITION TraceAccepted\n")
        from concurrent.futures import ThreadPoolExecutor

        def one(i):
            f = os.path.join(self.dir, "%s-chunk%d-%d.ndjson" % (module, i, time.monotonic_ns()))
            open(f, "w").write("\n".join(chunks[i]) + "\n")
            res = f + ".res"
            rc, out = self.tlc(d, module, c, ["-deadlock"], 1, timeout, {"TRACES": f, "RESULT": res}, heap="3g")
            if not os.path.exists(res):
                raise CheckError("trace validation %s gave no result:\n%s" % (module, out[-3500:]))
            bad = json.loads(open(res).read().strip().splitlines()[-1])
            if isinstance(bad, str):
                bad = json.loads(bad)
            g, s = self.counts(out)
            return bad, g, s, out

        t = time.time()
        bads = []
        with ThreadPoolExecutor(max_workers=min(workers, 7)) as ex:
            for i, (bad, g, s, out) in enumerate(ex.map(one, range(len(chunks)))):
                self.cov["states"] += s
                self.cov["transitions"] += g
                for b in bad:      # [tid, furthest step]
                    bads.append((json.loads(chunks[i][b[0] - 1]), b[1]))
        n = len(lines)
        steps = sum(len(json.loads(l)) for l in lines)
        self.cov["traces_validated_against_impl"] += n
        self.cov["steps_validated_against_impl"] += steps
        self.cov["runs"].append({"kind": "trace validation", "module": module, "traces": n, "steps": steps, "rejected": len(bads), "wall_s": round(time.time() - t, 1), "note": note})
        if len(self.cov["samples"]) < 3:
            self.cov["samples"].append({"trace": json.loads(lines[0])[:12]})
        for tr, at in bads[:5]:
            m = {"kind": "trace rejected", "module": module, "accepted_steps": at, "trace": tr,
                 "summary": "rejected at step %d: %s" % (at + 1, json.dumps(tr[at] if at < len(tr) else "end")[:300])}
            if sigf:
                m["sig"] = sigf(tr, at)
            self.report(m, what)
        return bads

    # ---------------------------------------------------------------- findings / result
    def known(self):
        try:
            return json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
        except FileNotFoundError:
            return []

    def is_known(self, sig, m):
        for k in self.known():
            if k["property"] == self.prop and k.get("sig") and k["sig"] == sig:
                if k not in self.known_hits:
                    self.known_hits.append(k)
                return True
        return False

    def replay_file(self, obj):
        self.repn += 1
        p = os.path.join(self.evdir, "replay-%s-%d.json" % (self.prop, self.repn))
        json.dump(obj, open(p, "w"), indent=1, default=str)
        return p

    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": self.cov, "wall_s": round(time.time() - self.t0, 2),
              "assumptions": self.assumptions, "violations": [v["what"][:500] for v in self.violations]}
        json.dump(ev, open(os.path.join(self.evdir, self.prop + ".json"), "w"), indent=1, default=str)


def main(registry):
    if len(sys.argv) < 2:
        print("usage: check.py PROPERTY [quick|thorough]")
        sys.exit(3)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if prop not in registry:
        print("unknown property", prop)
        sys.exit(3)
    ctx = Ctx(prop, tier, seed)
    code = 0
    try:
        try:
            registry[prop](ctx)
        except CheckError as e:
            if ctx.violations:
                print("check error after a violation: %s" % e)
            else:
                print("CHECK ERROR: %s" % e)
                code = 3
        except Exception:
            traceback.print_exc()
            code = 3
        ctx.finish()
        for w in dict.fromkeys(k["what"] for k in ctx.known_hits):
            print("KNOWN-FINDING: property=%s %s" % (prop, w))
        if ctx.violations:
            code = 1
            for v in ctx.violations[:10]:
                print("  " + v["what"][:600])
                print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        elif code == 0:
            print("OK property=%s tier=%s seed=%d traces=%d steps=%d states=%d wall=%.1fs" % (
                prop, tier, seed, ctx.cov["traces_validated_against_impl"],
                ctx.cov["steps_validated_against_impl"], ctx.cov["states"], time.time() - ctx.t0))
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", ctx.dir)
        else:
            shutil.rmtree(ctx.dir, ignore_errors=True)
    sys.exit(code)
