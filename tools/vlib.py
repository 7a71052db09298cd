"""Common machinery of the checks: TLC runs, harness builds, evidence."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIGTOOL_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    pass


class Crashed(Exception):
    """The code under test ended the harness: reported, nothing more to do."""


def goenv():
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", CGO_ENABLED="0")
    e.setdefault("HOME", "/root")
    return e


class Ctx:
    """One run of one check."""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vf-%s-" % prop.lower())
        os.chmod(self.work, 0o755)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.executions = 0
        self.counts = {}
        self.samples = []
        self.notes = []
        self.violations = []
        self.nviol = 0
        self.models = []
        self.assumptions = []
        self._vh = None
        self._race = None
        self._bin = None

    def close(self):
        subprocess.run(["chmod", "-R", "u+rwx", self.work], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.work, ignore_errors=True)

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # --- building ---
    def build(self, race=False):
        """Build the harness against the current tree of /repo."""
        if race and self._race:
            return self._race
        if self._vh and not race:
            return self._vh
        mod = os.path.join(self.work, "mod")
        os.makedirs(mod, exist_ok=True)
        gm = open(os.path.join(VERIF, "harness", "go.mod")).read()
        gm = gm.replace("=> /repo", "=> " + REPO)
        open(os.path.join(mod, "go.mod"), "w").write(gm)
        sums = set()
        for f in (os.path.join(VERIF, "harness", "go.sum"), os.path.join(REPO, "go.sum")):
            if os.path.exists(f):
                sums.update(open(f).read().splitlines())
        open(os.path.join(mod, "go.sum"), "w").write("\n".join(sorted(sums)) + "\n")
        out = os.path.join(self.work, "vh-race" if race else "vh")
        p = subprocess.run(["go", "build"] + (["-race"] if race else []) + ["-buildvcs=false", "-modfile", os.path.join(mod, "go.mod"), "-o", out, "."],
                           cwd=os.path.join(VERIF, "harness"), env=dict(goenv(), CGO_ENABLED="1") if race else goenv(), capture_output=True, text=True)
        if p.returncode != 0:
            raise CheckError("harness does not build:\n" + p.stderr[-4000:])
        if race:
            self._race = out
        else:
            self._vh = out
        self.log("harness built" + (" with the race detector" if race else ""))
        return out

    def build_bin(self):
        """Build the sigtool program from the current tree of /repo."""
        if self._bin:
            return self._bin
        out = os.path.join(self.work, "sigtool")
        mod = os.path.join(self.work, "rmod")
        os.makedirs(mod, exist_ok=True)
        for f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(REPO, f), os.path.join(mod, f))
        p = subprocess.run(["go", "build", "-trimpath", "-buildvcs=false", "-modfile", os.path.join(mod, "go.mod"), "-o", out, "./src"],
                           cwd=REPO, env=goenv(), capture_output=True, text=True)
        if p.returncode != 0:
            raise CheckError("sigtool does not build:\n" + p.stderr[-4000:])
        self._bin = out
        self.log("sigtool built")
        return out

    # --- TLC ---
    def tlc(self, module, consts, invs, name=None, emit=None, expect_violation=None, workers=NCPU,
            simulate=None, depth=None, props=(), constraint=None, timeout=600, spec="Spec", postcondition=None,
            deque=False, files=None, count=True, heap="8g"):
        """Run TLC on spec/<module>.tla.

        consts: {"Name": "value" or "<- Def"}.  With emit, lines printed with
        the prefix @C are collected into that file (one JSON object a line).
        expect_violation: the run is a non-vacuity run and must end with a
        violation of one of the given invariants.
        """
        name = name or module
        if expect_violation is not None:
            # only these: with several workers another one may be found first
            known = set(invs) | set(props)
            if set(expect_violation) <= known:
                invs = [i for i in invs if i in expect_violation]
                props = [p for p in props if p in expect_violation]
        d = os.path.join(self.work, "tlc-%s-%d" % (name, len(self.models)))
        os.makedirs(d)
        for f in glob.glob(os.path.join(SPEC, "*.tla")):
            shutil.copy(f, d)
        for f in files or ():
            shutil.copy(f, d)
        cfg = ["SPECIFICATION " + spec]
        if consts:
            cfg.append("CONSTANTS")
            for k, v in consts.items():
                cfg.append("  %s %s" % (k, v if v.startswith("<-") else "= " + v))
        if invs:
            cfg.append("INVARIANTS " + " ".join(invs))
        if props:
            cfg.append("PROPERTIES " + " ".join(props))
        if constraint:
            cfg.append("CONSTRAINT " + constraint)
        if postcondition:
            cfg.append("POSTCONDITION " + postcondition)
        cfg.append("CHECK_DEADLOCK FALSE")
        open(os.path.join(d, "run.cfg"), "w").write("\n".join(cfg) + "\n")
        cmd = ["tlc", "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-config", "run.cfg"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-seed", str(SEED)]
            if depth:
                cmd += ["-depth", str(depth)]
        cmd.append(module + ".tla")
        env = dict(os.environ)
        jo = "-Xmx" + heap + " -Djava.io.tmpdir=" + d
        if deque:
            jo += " -Dtlc2.tool.queue.IStateQueue=StateDeque"
        env["JAVA_TOOL_OPTIONS"] = (env.get("JAVA_TOOL_OPTIONS", "") + " " + jo).strip()
        log = os.path.join(d, "out.txt")
        t = time.time()
        with open(log, "w") as lf:
            try:
                p = subprocess.run(cmd, cwd=d, env=env, stdout=lf, stderr=subprocess.STDOUT, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                raise CheckError("TLC timed out on %s" % name)
        gen = dist = 0
        ncase = 0
        text = []
        ef = open(emit, "a") if emit else None
        with open(log, errors="replace") as lf:
            for line in lf:
                if line.startswith('"@C'):
                    ncase += 1
                    if ef:
                        ef.write(json.loads(line)[2:] + "\n")
                    continue
                m = re.match(r"([\d,]+) states generated.*?, ([\d,]+) distinct", line)
                if m:
                    gen, dist = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
                m = re.match(r"The number of states generated: (\d+)", line)
                if m:
                    gen = dist = int(m.group(1))
                text.append(line)
        if ef:
            ef.close()
        out = "".join(text)
        violated = re.findall(r"Invariant (\w+) is violated|Temporal properties were violated|property (\w+) is violated|Action property (\w+)", out)
        shutil.rmtree(d, ignore_errors=True)
        info = dict(model=name, module=module, states=dist, generated=gen, cases=ncase, wall_s=round(time.time() - t, 1))
        if expect_violation is not None:
            names = {x for v in violated for x in v if x}
            if not names & set(expect_violation):
                raise CheckError("non-vacuity run %s: expected a violation of %s, got %s\n%s" % (name, expect_violation, names, out[-1500:]))
            info["deliberate_violation"] = sorted(names)
            self.models.append(info)
            return info
        if rc != 0 or "Error:" in out:
            raise CheckError("TLC failed on %s (exit %d):\n%s" % (name, rc, out[-3500:]))
        if count:
            self.states += dist
            self.transitions += gen
        self.models.append(info)
        self.log("TLC %s: %d states, %d transitions, %d cases in %.1fs" % (name, dist, gen, ncase, info["wall_s"]))
        return info

    def prove(self, module, result, broken=()):
        """Inductive invariant of spec/<module>.tla, with Apalache: unbounded.

        broken: definitions of CONSTANTS with a deliberate fault, for which
        the invariant must not be inductive."""
        t = time.time()
        jobs = [("init", "ConstInit", "Init", "Inv", 0, True), ("step", "ConstInit", "IndInit", "Inv", 1, True),
                ("result", "ConstInit", "IndInit", result, 0, True)]
        jobs += [("broken-" + b, b, "IndInit", "Inv", 1, False) for b in broken]

        def run(j):
            name, const, init, inv, n, good = j
            for attempt in range(2):
                d = os.path.join(self.work, "apa-%s-%s-%d" % (module, name, attempt))
                os.makedirs(d)
                shutil.copy(os.path.join(SPEC, module + ".tla"), d)
                env = dict(os.environ)
                env["JVM_ARGS"] = "-Xmx3g -Djava.io.tmpdir=" + d
                env["TMPDIR"] = d
                try:
                    p = subprocess.run(["apalache-mc", "check", "--out-dir=" + d + "/out", "--cinit=" + const, "--init=" + init, "--inv=" + inv,
                                        "--length=%d" % n, module + ".tla"], cwd=d, env=env, capture_output=True, text=True, errors="replace", timeout=150)
                    out = p.stdout + p.stderr
                except (subprocess.TimeoutExpired, OSError) as e:
                    out = str(e)
                shutil.rmtree(d, ignore_errors=True)
                if "EXITCODE: OK" in out:
                    return "holds", out
                if "EXITCODE: ERROR (12)" in out:
                    return "fails", out
            return "none", out

        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            res = list(ex.map(run, jobs))
        for j, (r, out) in zip(jobs, res):
            if r == "none":
                # the tool gave no answer: the proof is an addition to the checks, whose verdict does not depend on it
                self.log("Apalache %s %s: no answer: %s" % (module, j[0], out[-300:]))
            elif (r == "holds") != j[5]:
                raise CheckError("Apalache %s %s: the invariant %s" % (module, j[0], r))
        info = dict(model=module, module=module, tool="apalache", states=0, generated=0, cases=0, wall_s=round(time.time() - t, 1),
                    obligations={j[0]: r for j, (r, _) in zip(jobs, res)})
        self.models.append(info)
        self.log("Apalache %s: %s in %.1fs" % (module, ", ".join("%s %s" % (j[0], r) for j, (r, _) in zip(jobs, res)), info["wall_s"]))
        return info

    # --- harness ---
    def harness(self, cmd, cases=None, extra=None, budget=None, timeout=None, prop=None, env=None, needs_bin=False, merge=True, race=False):
        vh = self.build(race)
        if budget is None:
            budget = 3000 if THOROUGH else int(max(30, min(420, 780 - (time.time() - self.t0))))
        out = os.path.join(self.work, "res-%s-%d.json" % (cmd, int(time.time() * 1e6)))
        w = os.path.join(self.work, "w-%d" % int(time.time() * 1e6))
        os.makedirs(w)
        a = [vh, cmd, "-prop", prop or self.prop, "-seed", str(SEED), "-tier", TIER, "-work", w, "-out", out, "-budget", str(budget)]
        if cases:
            a += ["-cases", cases]
        if needs_bin:
            a += ["-bin", self.build_bin()]
        if extra:
            a += ["-x", ",".join("%s=%s" % kv for kv in extra.items())]
        e = dict(os.environ)
        e["GOMEMLIMIT"] = "20GiB"
        if env:
            e.update(env)
        try:
            p = subprocess.run(a, capture_output=True, text=True, errors="replace", timeout=timeout or (budget + 300 if THOROUGH else max(60, min(budget + 300, 870 - (time.time() - self.t0)))), env=e)
        except subprocess.TimeoutExpired:
            raise CheckError("harness %s timed out" % cmd)
        if p.returncode != 0 or not os.path.exists(out):
            r = self.crashed(cmd, p)
            if r is None:
                raise CheckError("harness %s failed (exit %d):\n%s\n%s" % (cmd, p.returncode, p.stdout[-1500:], p.stderr[-3500:]))
            return r
        r = json.load(open(out))
        if merge:
            self.merge(r, cmd)
        return r

    def races(self, log):
        """Data races the race detector found in the code under test."""
        n = 0
        for f in glob.glob(log + ".*"):
            for blk in re.split(r"(?m)^==================\n", open(f, errors="replace").read()):
                if "DATA RACE" not in blk:
                    continue
                n += 1
                fns = re.findall(r"(?m)^  (\S+)\(", blk.split("Goroutine ")[0])
                mine = [x for x in fns if "opencoff/sigtool" in x]
                if not mine:
                    self.notes.append("race outside the code under test: " + " / ".join(fns[:4]))
                    continue
                mine = [x.split("/")[-1] for x in mine]
                key = "race:" + "+".join(sorted(set(mine))[:4])
                if any(v["key"] == key for v in self.violations):
                    continue
                self.nviol += 1
                self.violations.append(dict(key=key, msg="data race between operations that only share keys, signatures or input: " + ", ".join(mine[:6]), replay=blk[:4000], cmd="shared"))
        self.counts["data_races"] = n

    def crashed(self, cmd, p):
        """Did the code under test end the harness in a way no Go program can catch?"""
        m = re.search(r"(?m)^(fatal error: .*|panic: .*|runtime: .*exceeds.*)$", p.stderr)
        g = re.search(r"(?m)^goroutine \d+ .*\[running.*:\n((?:.+\n)+)", p.stderr[m.start():]) if m else None
        if not g or "out of memory" in m.group(1):
            return None
        fns = [x for x in re.findall(r"(?m)^(?:created by )?([\w./*()\-]+)[({ ]", g.group(1)) if not x.startswith(("runtime", "panic", "internal/", "sync", "testing"))]
        own = [x for x in fns if "opencoff/sigtool" in x]
        first = next((i for i, x in enumerate(fns) if x.startswith("main.")), len(fns))
        if not own or fns.index(own[0]) > first:
            return None
        self.nviol += 1
        self.violations.append(dict(key="crash:" + own[0].split("/")[-1], msg="%s in %s" % (m.group(1)[:200], own[0]), replay=p.stderr[m.start():m.start() + 4000], cmd=cmd))
        raise Crashed()

    def merge(self, r, cmd):
        self.executions += r["executions"]
        self.traces += r["traces"]
        for k, v in r["counts"].items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.samples += r["samples"][:6]
        self.notes += r["notes"]
        self.nviol += r["nviol"]
        for v in r["violations"]:
            v["cmd"] = cmd
            self.violations.append(v)
        self.log("harness %s: %d executions, %d behaviours, %d violations" % (cmd, r["executions"], r["traces"], r["nviol"]))
        for n in r["notes"][:12]:
            self.log("  note:", n)

    # --- verdict ---
    def finish(self, level="model_checking", known=()):
        """Write evidence, print violations, return the exit code."""
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        rep = os.path.join(ev, "replay")
        for f in glob.glob(os.path.join(rep, self.prop + "-*")):
            os.unlink(f)
        known_hit, fresh = {}, []
        for v in self.violations:
            for k in known:
                if re.fullmatch(k["match"], v["key"]):
                    known_hit.setdefault(k["what"], v)
                    break
            else:
                fresh.append(v)
        for what in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what), flush=True)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   executions_of_real_code=self.executions,
                   models=self.models, counts=self.counts,
                   notes=self.notes[:40],
                   samples=self.samples[:12] or [{"note": "no sample"}])
        e = dict(property=self.prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level, coverage=cov,
                 assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(fresh))
        json.dump(e, open(os.path.join(ev, self.prop + ".json"), "w"), indent=1, default=str)
        if not fresh:
            print("PASS property=%s states=%d transitions=%d behaviours=%d executions=%d wall=%.1fs" % (
                self.prop, self.states, self.transitions, self.traces, self.executions, time.time() - self.t0), flush=True)
            return 0
        os.makedirs(rep, exist_ok=True)
        for i, v in enumerate(fresh[:20]):
            f = os.path.join(rep, "%s-%d.json" % (self.prop, i))
            json.dump(dict(property=self.prop, seed=SEED, tier=TIER, **v), open(f, "w"), indent=1, default=str)
            print("  " + v["msg"][:600], flush=True)
            print("VIOLATION property=%s replay=%s" % (self.prop, f), flush=True)
        return 1
