"""Plumbing of the checks: builds, runs of the driver and of TLC, verdicts, evidence."""
import json, os, random, re, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

import gen

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
SLOW = {"C11", "C12", "C15", "C16", "C17"}  # checks with fewer scenarios
SCALE = float(os.environ.get("VERIF_SCALE", "1"))  # fewer scenarios and no design-level models, for trying out many changes of the code
SPEC = VERIF / "spec"
TLA = Path("/opt/veriftools/tla")
CORES = min(8, os.cpu_count() or 1)
REPLAYS = VERIF / "replays"


class Broken(Exception):
    """The check itself could not run; says nothing about the property."""


def go_env():
    env = dict(os.environ)
    env.setdefault("GOFLAGS", "-buildvcs=false")
    env.setdefault("GOPROXY", "off")
    env.setdefault("GOTOOLCHAIN", "local")
    env.setdefault("HOME", "/root")
    return env


def numbers(x, spots):
    """All places in nested lists that hold a number as text."""
    if isinstance(x, dict):
        for v in x.values():
            numbers(v, spots)
    elif isinstance(x, list):
        for i, v in enumerate(x):
            if isinstance(v, str) and re.fullmatch(r"-?\d+(/\d+)?", v):
                spots.append((x, i))
            else:
                numbers(v, spots)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random(f"{prop}/{seed}")
        self.start = time.time()
        self.scratch = Path(tempfile.mkdtemp(prefix=f"verif-{prop}-"))
        self.states = 0          # distinct states found by TLC
        self.transitions = 0     # states generated by TLC
        self.traces = 0          # recorded traces decided by TLC
        self.events = 0
        self.samples = []
        self.models = {}
        self.violations = []
        self.notes = {}
        self.assumptions = []
        self.known = []
        self.log_ = []
        self._drv = {}
        self._classes = None
        self.env = {}            # for the driver
        self.plant = ()          # result fields to corrupt for canaries

    def findings(self):
        """Known findings of this property."""
        return [x.split(" ", 2)[2].strip() for x in (VERIF / "known-findings.txt").read_text().splitlines() if x.startswith(f"known: property={self.prop} ")]

    # ---- logging and timing
    def log(self, *a):
        print(f"[{time.time() - self.start:6.1f}s]", *a, flush=True)

    def elapsed(self):
        return time.time() - self.start

    def pick(self, quick, thorough):
        n = thorough if self.thorough else quick
        k = 2 if self.thorough or self.prop in SLOW else 4
        return max(50, int(n * k * SCALE)) if n > 50 else n

    # ---- builds
    def overlay(self):
        path = self.scratch / "overlay.json"
        if not path.exists():
            rep = {str(REPO / "cmd/zzverif" / f.name): str(f) for f in (VERIF / "harness/driver").glob("*.go")}
            path.write_text(json.dumps({"Replace": rep}))
        return path

    def driver(self, race=False):
        if race in self._drv:
            return self._drv[race]
        out = self.scratch / ("driver-race" if race else "driver")
        cmd = ["go", "build", "-overlay", str(self.overlay()), "-o", str(out)] + (["-race"] if race else []) + ["./cmd/zzverif"]
        r = subprocess.run(cmd, cwd=REPO, env=go_env(), capture_output=True, text=True)
        if r.returncode != 0:
            raise Broken("driver does not build:\n" + r.stderr)
        self._drv[race] = out
        return out

    def binary(self, name):
        out = self.scratch / name
        if not out.exists():
            r = subprocess.run(["go", "build", "-o", str(out), f"./cmd/{name}"], cwd=REPO, env=go_env(), capture_output=True, text=True)
            if r.returncode != 0:
                raise Broken(f"{name} does not build:\n" + r.stderr)
        return out

    def interactive(self):
        """The interactive tool with a screen that is no terminal: its two libraries for terminals are patched copies."""
        out = self.scratch / "bbni"
        if out.exists():
            return out
        env = dict(go_env(), GOWORK="off")
        mod = self.scratch / "go.mod"
        shutil.copy(REPO / "go.mod", mod)
        shutil.copy(REPO / "go.sum", self.scratch / "go.sum")
        mod.chmod(0o644)

        def copy(path):
            r = subprocess.run(["go", "list", "-m", "-f", "{{.Dir}}", path], cwd=REPO, env=env, capture_output=True, text=True)
            if r.returncode != 0:
                raise Broken(f"{path} not found:\n" + r.stderr)
            to = self.scratch / path.replace("/", "-")
            shutil.copytree(r.stdout.strip(), to, ignore=shutil.ignore_patterns("*_test.go", "demos", "_demos"))
            subprocess.run(["chmod", "-R", "u+w", str(to)], check=True)
            with mod.open("a") as f:
                f.write(f"\nreplace {path} => {to}\n")
            return to

        def patch(file, old, new):
            text = file.read_text()
            if text.count(old) != 1:
                raise Broken(f"cannot patch {file}: {old}")
            file.write_text(text.replace(old, new))

        view = copy("github.com/rivo/tview")
        patch(view / "application.go", "queueSize = 100", "queueSize = 0")
        patch(view / "application.go", "var DoubleClickInterval = 500 * time.Millisecond", "var DoubleClickInterval = 0 * time.Millisecond")
        cell = copy("github.com/gdamore/tcell/v2")
        patch(cell / "screen.go", "func NewScreen() (Screen, error) {", "func newTerminalScreen() (Screen, error) {")
        shutil.copy(VERIF / "harness/screen/verif_screen.go", cell)
        r = subprocess.run(["go", "build", f"-modfile={mod}", "-o", str(out), "./cmd/bbni"], cwd=REPO, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise Broken("bbni does not build:\n" + r.stderr)
        return out

    def classes(self):
        if self._classes is None:
            d = self.scratch / "classes"
            d.mkdir()
            r = subprocess.run(["javac", "-cp", str(TLA / "tla2tools.jar"), "-d", str(d)] + [str(p) for p in SPEC.glob("*.java")],
                               capture_output=True, text=True)
            if r.returncode != 0:
                raise Broken("overrides do not compile:\n" + r.stderr)
            self._classes = d
        return self._classes

    # ---- TLC
    def tlc(self, module, cfg=None, env=None, workers=CORES, args=(), timeout=None, heap="6g"):
        meta = Path(tempfile.mkdtemp(prefix="tlc", dir=self.scratch))
        cp = f"{self.classes()}:{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-cp", cp, "tlc2.TLC", "-workers", str(workers), "-metadir", str(meta),
               "-noGenerateSpecTE", "-config", str(cfg or SPEC / f"{module}.cfg"), *args, str(SPEC / f"{module}.tla")]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=self.scratch, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken(f"TLC on {module} did not end within {timeout} s")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout
        m = None
        for m in re.finditer(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out):
            pass
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        return r.returncode, out, gen, dist

    def behaviours(self, module, tag, env=None, simulate=None, depth=None, cfg=None, text=False):
        """Behaviours generated by TLC, printed by the specification as << tag, value >>."""
        args = ["-simulate", f"num={simulate}", "-depth", str(depth), "-seed", str(self.seed)] if simulate else []
        code, out, gen_, dist = self.tlc(module, cfg, env=env, args=args, workers=1 if simulate else CORES)
        if code != 0:
            raise Broken(f"TLC cannot generate behaviours of {module}:\n" + out[-3000:])
        res = []
        if text:
            res = [json.loads(m.group(1)) for m in re.finditer(r'<<\s*"%s",\s*("(?:[^"\\]|\\.)*")\s*>>' % tag, out)]
        for m in () if text else re.finditer(r'<<\s*"%s",(.*?)>>\n(?=<<|[A-Z]|\Z|\n)' % tag, out, re.S):
            res.append(json.loads(m.group(1).replace("<<", "[").replace(">>", "]")))
        self.states += dist
        self.transitions += gen_
        return res

    def model_check(self, module, cfg=None, label=None, **kw):
        """Exhaustive check of a design-level model; it does not depend on the code."""
        code, out, gen, dist = self.tlc(module, cfg, **kw)
        if code != 0 or "No error has been found" not in out:
            raise Broken(f"model {module} fails:\n" + out[-3000:])
        self.states += dist
        self.transitions += gen
        self.models[label or module] = {"states": dist, "generated": gen}
        self.log(f"model {label or module}: {dist} states, no error")
        return out

    def model_refutes(self, module, cfg, label):
        """A deliberately wrong design: TLC has to find the counterexample."""
        code, out, gen, dist = self.tlc(module, cfg)
        if "is violated" not in out:
            raise Broken(f"model {module} with {cfg} should fail, but does not:\n" + out[-3000:])
        self.models[label] = {"states": dist, "generated": gen, "counterexample": True}
        self.log(f"model {label}: counterexample found, as it should be")

    def design(self, quick, thorough=()):
        """Design-level models, several at once: (module, configuration, label), a label in brackets stands for a wrong design."""
        self.classes()
        if SCALE < 1:
            return

        def one(m):
            module, cfg, label = m
            (self.model_refutes if label[0] == "[" else self.model_check)(module, SPEC / f"{cfg}.cfg", label.strip("[]"))
        with ThreadPoolExecutor(3) as ex:
            list(ex.map(one, list(quick) + (list(thorough) if self.thorough else [])))

    # ---- driver
    def drive(self, scenarios, race=False, procs=CORES):
        """Executes scenarios with the driver, returns them with results. With race, several at once in one process."""
        drv = self.driver(race)
        if race:
            procs = 2
        chunks = [scenarios[i::procs] for i in range(procs)]
        chunks = [c for c in chunks if c]
        with ThreadPoolExecutor(procs) as ex:
            parts = list(ex.map(lambda c: self._drive_chunk(drv, c, race), chunks))
        by_id = {s["id"]: s for p in parts for s in p}
        return [by_id[s["id"]] for s in scenarios]

    def isolated(self, scenarios):
        """Executes each scenario in a process of its own."""
        drv = self.driver()
        with ThreadPoolExecutor(CORES) as ex:
            return [s for p in ex.map(lambda s: self._drive_chunk(drv, [s], False), scenarios) for s in p]

    def _drive_chunk(self, drv, chunk, race):
        done = []
        rest = list(chunk)
        while rest:
            out = self._run_driver(drv, rest, race)
            done += out
            rest = rest[len(out):]
            if rest:  # the process died in the next one (or one of the next, if they run in parallel)
                s = json.loads(json.dumps(rest[0]))
                for e in s["events"]:
                    e["res"] = {"st": "crash", "msg": self._last_err[-500:]}
                done.append(s)
                rest = rest[1:]
        return done

    def _run_driver(self, drv, chunk, race):
        fd, fin = tempfile.mkstemp(dir=self.scratch, suffix=".in")
        with os.fdopen(fd, "w") as f:
            for s in chunk:
                f.write(json.dumps(s) + "\n")
        fout = fin[:-3] + ".out"
        work = tempfile.mkdtemp(dir=self.scratch)
        env = dict(os.environ, **self.env, TMPDIR=work, GOMAXPROCS="8" if race else "2", GOTRACEBACK="single")
        if race:
            env["DRIVER_PARALLEL"] = "8"
            env["GORACE"] = "halt_on_error=1 exitcode=66"
        lim = None if race else (lambda: resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30)))
        try:
            r = subprocess.run([str(drv), fin, fout], env=env, capture_output=True, text=True, preexec_fn=lim, timeout=1500)
            self._last_err = r.stderr
        except subprocess.TimeoutExpired:
            self._last_err = "driver did not end"
        out = []
        if os.path.exists(fout):
            for line in open(fout):
                if line.endswith("\n"):
                    out.append(json.loads(line))
            os.unlink(fout)
        os.unlink(fin)
        shutil.rmtree(work, ignore_errors=True)
        return out

    # ---- validation of recorded traces
    def validate(self, module, traces, count=True):
        """Lets TLC decide recorded traces. Returns {id: (verdict, event number)}."""
        if not traces:
            return {}
        fd, path = tempfile.mkstemp(dir=self.scratch, suffix=".ndjson")
        with os.fdopen(fd, "w") as f:
            for t in traces:
                f.write(json.dumps(t) + "\n")
        code, out, gen, dist = self.tlc(module, env={"TRACE": path})
        os.unlink(path)
        verdicts = {}
        for m in re.finditer(r'<<\s*"(REJECT|DONE|ABANDON)",\s*"([^"]*)",\s*(\d+)\s*>>', out):
            if m.group(2) in verdicts and verdicts[m.group(2)][0] == "REJECT":
                continue
            verdicts[m.group(2)] = (m.group(1), int(m.group(3)))
        if '<<"KNOWN"' in out and not self.known:
            self.known += [f"KNOWN-FINDING: property={self.prop} {k}" for k in self.findings()]
        missing = [t["id"] for t in traces if t["id"] not in verdicts]
        if code != 0 or missing:
            keep = Path(tempfile.gettempdir()) / f"verif-broken-{self.prop}.txt"
            keep.write_text(out)
            raise Broken(f"TLC could not decide {len(missing)} traces with {module} (exit {code}), e.g. {missing[:3]}:\n" + out[-3000:])
        if count:
            self.states += dist
            self.transitions += gen
            self.traces += len(traces)
            self.events += sum(len(t["events"]) for t in traces)
        return verdicts

    def conform(self, module, scenarios, label, race=False, alone=None):
        """Runs scenarios on the code and decides the recorded traces; reports rejections."""
        t0 = time.time()
        recorded = self.drive(scenarios, race=race)
        t1 = time.time()
        canaries = self.canaries(recorded) if self.plant else []
        verdicts = self.validate(module, recorded + canaries)
        self.traces -= len(canaries)
        self.note("corrupted_traces", len(canaries))
        self.note("corrupted_traces_rejected", sum(verdicts.pop(t["id"])[0] == "REJECT" for t in canaries))
        self.log(f"{label}: {len(scenarios)} traces, {sum(len(s['events']) for s in scenarios)} events; code {t1 - t0:.1f} s, TLC {time.time() - t1:.1f} s")
        if recorded:
            self.sample(label, recorded[0])
        self.note("abandoned", sum(v[0] == "ABANDON" for v in verdicts.values()))
        bad = [t for t in recorded if verdicts[t["id"]][0] == "REJECT"]
        if alone and bad:
            bad = self.not_alone(module, bad, verdicts, alone)
        self.rejected(module, bad, verdicts, scenarios, race)
        return recorded, verdicts

    def not_alone(self, module, bad, verdicts, alone):
        """Drops rejections that happen to the last call on its own, too: not a matter of history."""
        twins = []
        for t in bad:
            s = alone(t, verdicts[t["id"]][1])
            if s is not None:
                s["id"] = t["id"]
                twins.append(s)
        if not twins:
            return bad
        v = self.validate(module, self.isolated(twins), count=False)
        keep = [t for t in bad if t["id"] not in v or v[t["id"]][0] != "REJECT"]
        if len(keep) < len(bad):
            self.log(f"{len(bad) - len(keep)} rejected answers are the same without history, left to other properties")
            self.note("rejected_without_history_too", len(bad) - len(keep))
        return keep

    def relate(self, module, pairs, label):
        """Runs pairs of scenarios on the code and decides whether their results are related."""
        t0 = time.time()

        def record(ps):
            both = self.drive([s for p in ps for s in (p["a"], p["b"])])
            out = []
            for i, p in enumerate(ps):
                a, b = both[2 * i], both[2 * i + 1]
                ev = []
                for x, y in p["match"]:
                    ea, eb = a["events"][x], b["events"][y]
                    ev.append({"op": ea["op"], "qa": ea.get("q", []), "qb": eb.get("q", []), "ra": ea["res"], "rb": eb["res"]})
                out.append(dict(p["head"], id=p["id"], events=ev))
            return out

        recorded = record(pairs)
        t1 = time.time()
        verdicts = self.validate(module, recorded)
        self.log(f"{label}: {len(pairs)} pairs, {sum(len(s['events']) for s in recorded)} events; code {t1 - t0:.1f} s, TLC {time.time() - t1:.1f} s")
        self.sample(label, recorded[0])
        bad = [(p, t) for p, t in zip(pairs, recorded) if verdicts[t["id"]][0] == "REJECT"]
        for p, t in bad[:20]:
            step = verdicts[t["id"]][1]
            ev = t["events"][step - 1]
            if {ev["ra"].get("st"), ev["rb"].get("st")} & {"hang", "crash"}:
                again = self.validate(module, record([p]), count=False)
                if again[p["id"]][0] != "REJECT":
                    self.note("unconfirmed", 1)
                    continue
            self.violation(dict(t, a=p["a"], b=p["b"]), step, f"answers to {ev['op']} differ between two descriptions of one network", module)

    def canaries(self, recorded, k=4):
        """Copies of recorded traces with one number changed: the specification should reject them."""
        rng = random.Random(f"{self.prop}/{self.seed}/canary")
        out = []
        for t in rng.sample(recorded, min(len(recorded), 3 * k)):
            t = json.loads(json.dumps(t))
            spots = []
            for e in t["events"]:
                if e["res"].get("st") == "ok":
                    for f in self.plant:
                        if f == "rows":
                            rows = e["res"].get(f, [])
                            spots += [(rows, i) for i, r in enumerate(rows) if re.search(r"\d\.\d{3}", r)]
                        else:
                            numbers(e["res"].get(f), spots)
            if spots and len(out) < k:
                lst, i = rng.choice(spots)
                if self.plant == ["rows"]:
                    lst[i] = re.sub(r"(\d)(\.\d{3})", lambda m: str((int(m.group(1)) + 1) % 10) + m.group(2), lst[i])
                else:
                    lst[i] = gen.rat(gen.F(lst[i]) * 2 + gen.F(1, 1000))
                t["id"] = f"canary-{len(out)}"
                out.append(t)
        return out

    def note(self, key, n):
        self.notes[key] = self.notes.get(key, 0) + n

    def rejected(self, module, bad, verdicts, scenarios, race=False):
        if not bad:
            return
        by_id = {s["id"]: s for s in scenarios}
        # Reproduce: several repetitions, because maps are iterated in random order.
        bad = bad[:40]
        reps = []
        for t in bad:
            for k in range(8):
                c = json.loads(json.dumps(by_id[t["id"]]))
                c["id"] = f"{t['id']}#{k}"
                reps.append(c)
        again = self.validate(module, self.drive(reps, race=race), count=False)
        for t in bad:
            hits = sum(again[f"{t['id']}#{k}"][0] == "REJECT" for k in range(8))
            step = verdicts[t["id"]][1]
            ev = t["events"][min(step, len(t["events"])) - 1]
            hang = ev["res"].get("st") in ("hang", "crash")
            if hang and hits == 0:
                self.log(f"unconfirmed {ev['res'].get('st')} in {t['id']}, not reported")
                self.notes["unconfirmed"] = self.notes.get("unconfirmed", 0) + 1
                continue
            self.violation(t, step, f"answer to event {step} ({ev['op']}) is not one the specification allows; reproduced {hits}/8", module)

    def violation(self, trace, step, what, module=None):
        REPLAYS.mkdir(exist_ok=True)
        name = re.sub(r"[^A-Za-z0-9_.-]", "_", f"{self.prop}-{self.seed}-{trace.get('id', 'x')}")
        path = REPLAYS / f"{name}.json"
        path.write_text(json.dumps({"property": self.prop, "module": module, "step": step, "what": what, "trace": trace}, indent=1))
        self.violations.append(path)
        if len(self.violations) <= 5:
            ev = trace.get("events")
            self.log("violation:", what)
            if ev:
                self.log("  event:", json.dumps(ev[min(step, len(ev)) - 1])[:1500])

    def sample(self, label, trace, limit=1500):
        text = json.dumps(trace)
        if len(self.samples) < 8:
            self.samples.append({"kind": label, "trace": json.loads(text) if len(text) <= limit else text[:limit] + "..."})

    # ---- end
    def finish(self):
        wall = time.time() - self.start
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_checked": self.events, "models": self.models, "samples": self.samples}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 1), "violations": len(self.violations)}
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.prop}.json").write_text(json.dumps(ev, indent=1))
        for k in self.known:
            print(k)
        for v in self.violations[:10]:
            print(f"VIOLATION property={self.prop} replay={v}")
        self.log(f"{self.prop} {self.tier}: {self.traces} traces, {self.states} states, {len(self.violations)} violations")
        return 1 if self.violations else 0

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
