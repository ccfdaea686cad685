"""Runs one check: builds the driver from /repo's working tree, model-checks the
design specifications, records traces from the real code and validates them with
TLC against the trace specifications.

exit 0  property held on everything explored
exit 1  VIOLATION line printed
exit 2  error of the check itself (build failure, model/tool failure)
"""
import os, sys, json, time, glob, shutil, subprocess, tempfile, re, signal
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 2)
INCS = ["eo/src", "eo", "mo/src", "moeo/src", "edo/src", "smp/src", "problems", "problems/eval", "eo/src/es"]

class CheckError(Exception):
    pass

def sh(cmd, timeout, cwd=None, env=None, out=None):
    """run; returns (rc, text); rc = None on timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env,
                         text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, _ = p.communicate()
        return None, o

LIBS = {
    "eo": lambda: sorted(glob.glob(f"{REPO}/eo/src/*.cpp")) + [f for f in sorted(glob.glob(f"{REPO}/eo/src/utils/*.cpp"))],
    "ga": lambda: [],
    "moeo": lambda: sorted(glob.glob(f"{REPO}/moeo/src/core/*.cpp")),
    "smp": lambda: smp_sources(),
    "es": lambda: [f"{REPO}/eo/src/es/{f}.cpp" for f in ("CMAState", "CMAParams", "eig")],
    "mpi": lambda: sorted(glob.glob(f"{REPO}/eo/src/mpi/*.cpp")),
    "serial": lambda: sorted(glob.glob(f"{REPO}/eo/src/serial/*.cpp")),
}

def smp_sources():
    # the compiled units of the smp library, as its build file lists them
    t = open(f"{REPO}/smp/src/CMakeLists.txt", errors="replace").read()
    return [f"{REPO}/smp/src/{f}" for f in dict.fromkeys(re.findall(r"^\s*([\w/]+\.cpp)\s*$", t, re.M))]

class Run:
    def __init__(self, prop, cfg, tier, seed):
        self.prop, self.cfg, self.tier, self.seed = prop, cfg, tier, seed
        self.work = tempfile.mkdtemp(prefix=f"vf-{prop}-")
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.opcount = {}
        self.samples = []
        self.notes = []
        self.met = set()
        self.known = []
        self.t0 = time.time()
        self.deadline = self.t0 + (840 if tier == "quick" else 3 * 3600)

    # ------------------------------------------------------------- building
    def build(self, unit):
        objs, jobs = [], []
        src = os.path.join(HARN, unit["driver"])
        cxx = ["g++"]
        if os.environ.get("VF_CCACHE"): cxx = ["ccache", "g++"]
        flags = ["-std=c++17", "-O1", "-w", "-D_GLIBCXX_ASSERTIONS", "-DWITH_EIGEN", "-I/usr/include/eigen3", f"-I{HARN}"] + \
                [f"-I{REPO}/{d}" for d in INCS] + unit.get("flags", [])
        files = [(src, "drv")]
        for lib in unit.get("libs", []):
            files += [(f, lib) for f in LIBS[lib]()]
        for extra in unit.get("sources", []):
            files.append((extra.replace("$REPO", REPO).replace("$HARN", HARN), "x"))
        bdir = os.path.join(self.work, "b-" + unit["name"])
        os.makedirs(bdir)
        for i, (f, _) in enumerate(files):
            o = os.path.join(bdir, f"{i}.o")
            objs.append(o)
            jobs.append(cxx + flags + ["-c", f, "-o", o])
        with ThreadPoolExecutor(NCPU) as ex:
            for (rc, out), j in zip(ex.map(lambda j: sh(j, 600), jobs), jobs):
                if rc != 0:
                    raise CheckError(f"compile failed ({j[-3]}):\n{out[-4000:]}")
        exe = os.path.join(bdir, "driver")
        rc, out = sh(["g++"] + objs + ["-o", exe, "-lpthread"] + unit.get("ldflags", []), 300)
        if rc != 0:
            raise CheckError("link failed:\n" + out[-4000:])
        return exe

    # ------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=300, extra=(), mem="1200m"):
        md = tempfile.mkdtemp(prefix="md-", dir=self.work)
        e = dict(os.environ); e.update(env or {})
        cmd = ["java", f"-Djava.io.tmpdir={self.work}", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", f"-Xmx{mem}", "-Xss16m",
               "-cp", TLAJAR, "tlc2.TLC", "-metadir", md, "-noGenerateSpecTE", "-workers", str(workers),
               "-config", cfg, *extra, module + ".tla"]
        rc, out = sh(cmd, timeout, cwd=SPEC, env=e)
        shutil.rmtree(md, ignore_errors=True)
        return rc, out

    @staticmethod
    def counts(out):
        m = re.findall(r"^([\d,]+) states generated, ([\d,]+) distinct states found", out, re.M)
        if not m: return 0, 0
        g, d = m[-1]
        return int(g.replace(",", "")), int(d.replace(",", ""))

    def model(self, spec):
        """exhaustive (bounded) model checking of a design specification"""
        name = spec if isinstance(spec, str) else spec["name"]
        base = name if isinstance(spec, str) else spec.get("cfg", name)
        cfg = base + ".cfg"
        extra = []
        if self.tier == "thorough" and os.path.exists(os.path.join(SPEC, base + "_thorough.cfg")):
            cfg = base + "_thorough.cfg"
        rc, out = self.tlc(name, cfg, workers=4, timeout=600 if self.tier == "quick" else 5400, extra=extra,
                           mem="3g" if self.tier == "quick" else "10g")
        if rc != 0 or "No error has been found" not in out:
            raise CheckError(f"model {name} failed (rc={rc}):\n{out[-3000:]}")
        g, d = self.counts(out)
        return dict(model=name, cfg=cfg, states=d, transitions=g)

    def scenarios(self, unit):
        g = unit["gen"]
        n = g.get("num", 200) * (1 if self.tier == "quick" else 10)
        rc, out = self.tlc(g["module"], g["module"] + ".cfg", timeout=300,
                           extra=["-simulate", f"num={n}", "-depth", str(g.get("depth", 20)), "-seed", str(self.seed)])
        lines = []
        for ln in out.splitlines():
            m = re.match(r'^"?SCEN (.*?)"?$', ln.strip())
            if m: lines.append(m.group(1).replace('\\"', '"'))
        if not lines:
            raise CheckError(f"scenario generation {g['module']} produced nothing (rc={rc}):\n{out[-2000:]}")
        path = os.path.join(self.work, unit["name"] + ".scen")
        lines = sorted(set(lines))
        open(path, "w").write("\n".join(lines) + "\n")
        self.notes.append(f"{len(lines)} scenarios generated by TLC from {g['module']}")
        return path

    # ------------------------------------------------------------- traces
    def record(self, unit, exe, shard, scen):
        out = os.path.join(self.work, f"{unit['name']}-{shard}.ndjson")
        n = unit.get("shards", NCPU)
        scale = unit.get("scale", 1) * (1 if self.tier == "quick" else unit.get("thorough_scale", 8))
        tmp = os.path.join(self.work, f"tmp-{unit['name']}-{shard}")
        os.makedirs(tmp, exist_ok=True)
        cmd = [exe, "--seed", str(self.seed), "--shard", str(shard), "--nshards", str(n), "--scale", str(scale), "--out", out, "--tmp", tmp]
        if scen: cmd += ["--scen", scen]
        if unit.get("mode"): cmd += ["--mode", unit["mode"]]
        env = dict(os.environ); env.update(unit.get("env", {}))
        tmo = unit.get("timeout", 120) * (1 if self.tier == "quick" else 12)
        if unit.get("launcher"): cmd = unit["launcher"] + cmd
        rc, txt = sh(cmd, tmo, cwd=tmp, env=env)
        return out, cmd, rc, txt

    def validate(self, unit, path):
        rc, out = self.tlc(unit["trace"], unit.get("cfg", unit["trace"] + ".cfg"), env={"TRACE": path},
                           timeout=unit.get("tlc_timeout", 420) * (1 if self.tier == "quick" else 8))
        g, d = self.counts(out)
        if "ACCEPTED" in out and rc == 0:
            return ("ok", 0, g, d, out)
        m = re.search(r'"REJECTED-AT", (\d+)', out)
        if m:
            return ("rej", int(m.group(1)), g, d, out)
        # the specification could not even be evaluated on the recorded values
        if rc is not None and ("was evaluated" in out or "The error occurred when TLC was evaluating" in out or "The following behavior constitutes" in out
                or "TLC threw an unexpected exception" in out or "evaluating" in out) and "Finished computing initial states" in out.split("Error:")[0]:
            m = re.findall(r"l = (\d+)", out)
            return ("evalerr", int(m[-1]) if m else 0, g, d, out)
        return ("fail", 0, g, d, out)

    def violation(self, unit, what, detail, files=(), event=None):
        rd = os.path.join(VERIF, "replay", self.prop)
        shutil.rmtree(rd, ignore_errors=True)
        os.makedirs(rd, exist_ok=True)
        for f in files:
            if os.path.exists(f): shutil.copy(f, rd)
        rp = os.path.join(rd, "violation.json")
        json.dump(dict(property=self.prop, unit=unit["name"], what=what, detail=detail, event=event,
                       seed=self.seed, tier=self.tier, driver=unit["driver"], trace_spec=unit["trace"]), open(rp, "w"), indent=1)
        print(f"{self.prop}: {what}: {detail[:1500]}")
        print(f"VIOLATION property={self.prop} replay={rp}")
        self.evidence(violations=1)
        return 1

    # ------------------------------------------------------------- main
    def evidence(self, violations=0):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   impl_events_validated=self.events, events_by_kind=self.opcount, samples=self.samples[:6] or ["(none)"],
                   models=self.models_info, notes=self.notes, exhaustive=False)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.cfg.get("level", "model_checking"), coverage=cov,
                  wall_s=round(time.time() - self.t0, 1), assumptions=self.cfg.get("assumptions", []), violations=violations)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)

    def known_findings(self):
        # the defects listed as known, by name; a specification names the one it met
        out = {}
        kf = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(kf):
            for ln in open(kf):
                m = re.match(r"KNOWN-FINDING: property=(\S+) id=(\S+) (.*)", ln.strip())
                if m and m.group(1) == self.prop: out[m.group(2)] = m.group(3)
        return out

    def run(self):
        self.models_info = []
        units = self.cfg["units"]
        try:
            with ThreadPoolExecutor(2) as bg:
                fm = [bg.submit(self.model, m) for m in self.cfg.get("models", [])]
                for u in units:
                    exe = self.build(u)
                    scen = self.scenarios(u) if "gen" in u else None
                    r = self.unit(u, exe, scen)
                    if r: return r
                for f in fm:
                    i = f.result()
                    self.models_info.append(i)
                    self.states += i["states"]; self.transitions += i["transitions"]
            for k in self.cfg.get("expect", []):
                if not self.opcount.get(k):
                    raise CheckError(f"vacuous run: no event of kind {k} was recorded")
            for k in sorted(self.met): print(f"KNOWN-FINDING: property={self.prop} {k}: {self.known_findings()[k]}")
            self.evidence()
            print(f"{self.prop}: ok, {self.events} real-code events in {self.traces} traces accepted, {self.states} states, {round(time.time()-self.t0,1)} s")
            return 0
        except CheckError as e:
            print(f"{self.prop}: CHECK-ERROR {e}", file=sys.stderr)
            return 2
        finally:
            if not os.environ.get("VF_KEEP"): shutil.rmtree(self.work, ignore_errors=True)
            else: print("kept", self.work)

    def unit(self, u, exe, scen):
        n = u.get("shards", NCPU)
        def one(s):
            out, cmd, rc, txt = self.record(u, exe, s, scen)
            v = None
            if rc == 0:
                v = self.validate(u, out)
            return out, cmd, rc, txt, v
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(one, range(n)))
        redo = {}
        for out, cmd, rc, txt, v in res:
            if rc == 0: continue
            if rc == 3: raise CheckError("driver usage/setup error: " + txt[-2000:])
            # crash or hang of the code under test: repeat before reporting
            shard = int(cmd[cmd.index("--shard") + 1])
            for again in range(8 if u.get("threads") else 3):
                out, cmd, rc2, txt2 = self.record(u, exe, shard, scen)
                if rc2 != 0: break
            if rc2 == 0:
                # seen once and never again: not reported, the repeated run is judged instead
                self.notes.append(f"{u['name']} shard {shard}: status {rc} once, not repeatable")
                redo[shard] = (out, cmd, 0, txt2, self.validate(u, out))
                continue
            what = "the real code did not terminate" if rc is None and rc2 is None else f"the real code crashed (status {rc})"
            last = ""
            try: last = open(out).read().splitlines()[-1][:800]
            except Exception: pass
            return self.violation(u, what, (txt2 or txt)[-600:] + " last event: " + last, [out])
        res = [redo.get(i, x) for i, x in enumerate(res)]
        for out, cmd, rc, txt, v in res:
            kind, pos, g, d, tl = v
            if kind == "fail":
                v2 = self.validate(u, out)
                if v2[0] == "fail": raise CheckError(f"TLC failed on {out}: {tl[-2500:]}")
                kind, pos, g, d, tl = v2
            lines = open(out).read().splitlines()
            if kind in ("rej", "evalerr"):
                v2 = self.validate(u, out)
                if v2[0] not in ("rej", "evalerr"): raise CheckError("rejection not repeatable")
                ev = lines[pos - 1] if 0 < pos <= len(lines) else "?"
                return self.violation(u, "recorded step is not a step of the specification" + (" (outside its domain)" if kind == "evalerr" else ""),
                                      f"{u['trace']} at line {pos}: {ev}" + ("" if kind == "rej" else " :: " + tl[-600:]), [out], ev)
            for k in sorted(set(re.findall(r'<<"KNOWN", "([\w-]+)">>', tl))):
                if k not in self.known_findings():
                    return self.violation(u, "recorded step is a defect not listed as known", k, [out])
                self.met.add(k)
            self.transitions += g; self.states += d
            self.events += len(lines)
            ntr = 0
            for i, ln in enumerate(lines):
                try: e = json.loads(ln)
                except Exception: raise CheckError("bad trace line " + ln[:200])
                for k in {e.get("op"), e.get("kind")} - {None}:
                    self.opcount[k] = self.opcount.get(k, 0) + 1
                if e.get("op") in ("new", "reset", "start"): ntr += 1
                if i in (1, len(lines) // 2) and len(self.samples) < 6: self.samples.append(ln[:600])
            self.traces += max(1, ntr)
        return 0

def main(argv):
    from registry import CHECKS
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 2: tier = argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return Run(prop, CHECKS[prop], tier, seed).run()
