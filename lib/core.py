"""Building the drivers from /repo, running scenarios, and letting TLC judge what was recorded."""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar"
TLA_CP = JAR + ":" + os.path.join(os.path.dirname(JAR), "CommunityModules-deps.jar")
GOENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GO111MODULE="on", GOWORK="off",
             GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")
CORES = os.cpu_count() or 4


class HarnessError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def clip(t):
    return t if len(t) < 12000 else t[:8000] + "\n...\n" + t[-4000:]


class Ctx:
    """One run of one check."""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s-%d" % (prop, self.seed))
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = 0
        self.transitions = 0
        self.traces = 0          # accepted
        self.rejected = 0
        self.events = 0
        self.samples = []
        self.violations = []
        self.known = []
        self.notes = []
        self.cover = {}
        self.bins = {}
        self.lock = threading.Lock()
        self.ports = PortPool()
        self.errors = []

    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick() else thorough

    def count(self, key, n=1):
        with self.lock:
            self.cover[key] = self.cover.get(key, 0) + n

    def note(self, s):
        with self.lock:
            if s not in self.notes:
                self.notes.append(s)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ------------------------------------------------------------ building
    def build(self, want=("plain", "vy")):
        """Compiles the drivers against /repo's working tree (plain), and against an instrumented overlay (vy)."""
        def plain():
            out = os.path.join(self.dir, "drv.plain")
            r = sh(["go", "test", "-c", "-vet=off"] + (["-race"] if os.environ.get("VERIF_RACE") else []) + ["-o", out, "./drv"], cwd=HARNESS, env=GOENV)
            if r.returncode != 0:
                raise HarnessError("building the drivers failed:\n" + r.stdout[-3000:])
            return out

        def vy():
            od = os.path.join(self.dir, "overlay")
            os.makedirs(od, exist_ok=True)
            shutil.copy(os.path.join(HARNESS, "vy", "vy.go.txt"), os.path.join(od, "vy.go"))
            r = sh(["go", "run", "./instr", REPO, od, os.path.join(od, "vy.go")], cwd=HARNESS, env=GOENV)
            if r.returncode == 0:
                out = os.path.join(self.dir, "drv.vy")
                r = sh(["go", "test", "-c", "-vet=off", "-overlay", os.path.join(od, "overlay.json"), "-tags", "vy"] + (["-race"] if os.environ.get("VERIF_RACE") else []) + ["-o", out, "./drv"],
                       cwd=HARNESS, env=GOENV)
                if r.returncode == 0:
                    return out
            self.note("instrumented build failed, only the plain one was run: " + r.stdout[-300:])
            return None
        with cf.ThreadPoolExecutor(2) as ex:
            fs = {k: ex.submit({"plain": plain, "vy": vy}[k]) for k in want}
            for k, f in fs.items():
                self.bins[k] = f.result()
        if "vy" in want and self.bins.get("vy") is None:
            if "plain" not in self.bins:
                self.bins["plain"] = plain()
            self.bins["vy"] = self.bins["plain"]

    # ------------------------------------------------------------ running
    def run_one(self, scn, which="plain", timeout=60, attempt=0):
        """Runs one scenario in its own process. Returns dict(status, events, stderr): status ok, crash, hang."""
        d = tempfile.mkdtemp(dir=self.dir)
        sp, op = os.path.join(d, "scn.json"), os.path.join(d, "out.json")
        with open(sp, "w") as f:
            json.dump(scn, f)
        env = dict(os.environ, SCN=sp, OUT=op, GOTRACEBACK="all")
        status = "ok"
        try:
            p = subprocess.Popen([self.bins[which], "-test.run", "^TestDrive$", "-test.timeout", "0"], cwd=d, env=env,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            try:
                out, _ = p.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                out, _ = p.communicate()
                status = "hang"
        finally:
            pass
        events = []
        try:
            with open(op) as f:
                for line in f:
                    try:
                        events.append(json.loads(line))
                    except ValueError:
                        break
        except FileNotFoundError:
            pass
        shutil.rmtree(d, ignore_errors=True)
        if status == "ok" and not (p.returncode == 0 and events and events[-1].get("e") == "Done"):
            status = "crash"
            if "address already in use" in out and attempt < 4:
                self.count("retried_port_conflicts")
                return self.run_one(self.ports.rebase(scn), which, timeout, attempt + 1)
            if "HARNESS-ERROR" in out or "panic: harness" in out or harness_panic(out) or not events and "panic" not in out and "ferry" not in out:
                if attempt < 2:      # once is no reason to give up
                    self.count("retried_driver_failures")
                    self.note("driver failed: " + out[:600])
                    return self.run_one(self.ports.rebase(scn) if "base" in scn else scn, which, timeout, attempt + 1)
                raise HarnessError("driver failed:\n" + out[:3000] + "\n...\n" + out[-1000:] + "\nscenario: " + json.dumps(scn)[:2000])
        if status == "crash":
            events.append({"e": "Crash", "what": crash_line(out)})
        elif status == "hang":
            events.append({"e": "Hang"})
        return dict(status=status, events=events, stderr=out, scn=scn, which=which)

    def run(self, scns, which="plain", timeout=60, par=None):
        """Runs scenarios in parallel; hanging ones give no data."""
        scns = list(scns)
        res = []
        for s in scns:
            self.ports.assign(s)
        with cf.ThreadPoolExecutor(par or CORES) as ex:
            for r in ex.map(lambda s: self.run_one(s, which, timeout), scns):
                if r["status"] == "hang":
                    self.count("hung_scenarios")
                res.append(r)
        self.count("scenarios_run", len(res))
        return res

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, args=(), env=None, timeout=600, workers="1", heap=None, dfs=False):
        md = tempfile.mkdtemp(dir=self.dir)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + (heap or "3g"), "-Xss16m", "-Djava.io.tmpdir=" + md]
        if dfs:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE"]
        cmd += ["-config", cfg or module + ".cfg"] + list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            r = sh(cmd, cwd=SPEC, env=e, timeout=timeout)
            out, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as x:
            out, rc = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), -1
        shutil.rmtree(md, ignore_errors=True)
        m = re.findall(r"([\d,]+) states generated(?:[^\n,]*)?, ([\d,]+) distinct states found", out)
        gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        return dict(rc=rc, out=out, generated=gen, distinct=dist, wall=time.time() - t)

    def model_check(self, module, cfg=None, timeout=600, workers=None, heap="6g", args=()):
        """Exhaustive check of a specification; it says nothing about the code, so an error here is ours."""
        r = self.tlc(module, cfg, args=args, timeout=timeout, workers=workers or max(2, CORES // 2), heap=heap)
        if r["rc"] != 0:
            raise HarnessError("model checking %s %s failed:\n%s" % (module, cfg or "", r["out"][-3000:]))
        with self.lock:
            self.states += r["distinct"]
            self.transitions += r["generated"]
            self.cover.setdefault("model_checking", []).append(
                dict(module=module, config=cfg or module + ".cfg", distinct_states=r["distinct"], generated=r["generated"], wall_s=round(r["wall"], 1)))
        return r

    def generate(self, module, num, depth, cfg=None, seed=None, timeout=120):
        """Behaviours of a generator specification, as JSON values."""
        out = tempfile.mktemp(dir=self.dir)
        seed = self.rng.randrange(1 << 30) if seed is None else seed
        r = self.tlc(module, cfg, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)],
                     env={"GENOUT": out}, timeout=timeout)
        if r["rc"] != 0 or not os.path.exists(out):
            raise HarnessError("generating from %s failed:\n%s" % (module, r["out"][-3000:]))
        seen, res = set(), []
        with open(out) as f:
            for line in f:
                if line.strip() and line not in seen:
                    seen.add(line)
                    res.append(json.loads(line))
        os.remove(out)
        self.count("behaviours_generated_from_spec", len(res))
        return res

    def generate_all(self, module, cfg, timeout=200):
        """Everything a generator specification enumerates."""
        out = tempfile.mktemp(dir=self.dir)
        r = self.tlc(module, cfg, args=["-seed", str(self.rng.randrange(1 << 30))], env={"GENOUT": out}, timeout=timeout)
        if r["rc"] != 0 or not os.path.exists(out):
            raise HarnessError("generating from %s failed:\n%s" % (module, r["out"][-3000:]))
        with open(out) as f:
            res = sorted({line for line in f if line.strip()})
        os.remove(out)
        self.count("behaviours_generated_from_spec", len(res))
        return [json.loads(x) for x in res]

    def validate(self, module, traces, check=None, chunk=40, timeout=600, dfs=True, cfg=None, extra=None):
        """Returns for each trace how many of its events the specification explains."""
        chunks = [(i, traces[i:i + chunk]) for i in range(0, len(traces), chunk)]
        prog = [None] * len(traces)

        def one(ic):
            i, part = ic
            tf, rf = tempfile.mktemp(dir=self.dir), tempfile.mktemp(dir=self.dir)
            doc = dict(check=list(check or [self.prop]), traces=part)
            doc.update(extra or {})
            with open(tf, "w") as f:
                json.dump(doc, f)
            r = self.tlc(module, cfg, env={"TRACES": tf, "REPORT": rf}, timeout=timeout, dfs=dfs)
            ok = r["rc"] == 0 and os.path.exists(rf)
            p = None
            if ok:
                with open(rf) as f:
                    p = json.load(f)
                if isinstance(p, dict):
                    p = [p[str(k + 1)] for k in range(len(part))]
                os.remove(rf)
            os.remove(tf)
            if not ok:
                if len(part) > 1:     # find the one TLC can't evaluate
                    res = []
                    for k, t in enumerate(part):
                        res += one((i + k, [t]))
                    return res
                raise HarnessError("TLC can't evaluate a trace of %s:\n%s\n%s" % (module, r["out"][-2500:], json.dumps(part[0])[:1500]))
            with self.lock:
                self.states += r["distinct"]
                self.transitions += r["generated"]
            return [(i + k, x) for k, x in enumerate(p)]

        with cf.ThreadPoolExecutor(max(2, CORES // 2)) as ex:
            for part in ex.map(one, chunks):
                for k, x in part:
                    prog[k] = x
        return [x - 1 for x in prog]

    # ------------------------------------------------------------ verdicts
    def judge(self, module, results, make, check=None, confirm=None, **kw):
        """Validates the traces of results; make(result) gives the trace's extra fields. Rejections are violations.

        confirm(result) -> a second result of the same scenario, for rejections that depend on real time."""
        hung = [r for r in results if r["status"] == "hang"]
        results = [r for r in results if r["status"] != "hang"]
        # A run in real time that doesn't end, and doesn't either when run alone with more time, is a rejected one.
        # (In virtual time it may be because of something synctest can't see as waiting.)
        for r in [r for r in hung if not r["scn"].get("virtual")][:2]:
            r2 = self.run_one(self.ports.rebase(r["scn"]) if "base" in r["scn"] else r["scn"], r["which"], 150)
            results.append(r2)
            if r2["status"] == "hang":
                break
        if not results:
            return
        traces = [dict(make(r), events=r["events"]) for r in results]
        got = self.validate(module, traces, check, **kw)
        doubtful = []
        for r, t, g in zip(results, traces, got):
            self.events += len(t["events"])
            if g >= len(t["events"]):
                self.traces += 1
                if len(self.samples) < 2 and len(t["events"]) > 4:
                    self.samples.append(dict(module=module, accepted_trace=t["events"][:40]))
            elif confirm is not None and t["events"][g].get("e") in ("Settle", "End", "Done", "Rest"):
                doubtful.append(r)
            else:
                self.reject(module, r, t, g)

        # What was missing may only have been late: run those again, a few at a time, until there is enough to report.
        def again(r):
            r2 = confirm(r)
            if r2 is None or r2["status"] == "hang":
                return None
            t2 = dict(make(r2), events=r2["events"])
            g2 = self.validate(module, [t2], check, **kw)[0]
            return (r2, t2, g2) if g2 < len(t2["events"]) else None
        start = time.time()
        while doubtful:
            part, doubtful = doubtful[:3], doubtful[3:]
            if len(self.violations) >= 3 or time.time() - start > 240:
                self.count("rejections_not_confirmed_for_lack_of_time", len(part) + len(doubtful))
                break
            with cf.ThreadPoolExecutor(3) as ex:
                for x in ex.map(again, part):
                    if x is None:
                        self.count("unconfirmed_rejections")
                    else:
                        self.reject(module, *x)

    def reject(self, module, r, t, g):
        self.rejected += 1
        ev = t["events"][g]
        self.violate(dict(module=module, scenario=r.get("scn"), build=r.get("which"), trace=t, explained=g, event=ev,
                          stderr=clip(r.get("stderr", ""))),
                     "%s: event %d of the trace isn't allowed: %s" % (module, g + 1, json.dumps(ev)[:300]))

    def violate(self, doc, text):
        out = os.path.join(VERIF, "out", self.prop)
        os.makedirs(out, exist_ok=True)
        path = os.path.join(out, "violation-%d.json" % (len(self.violations) + 1))
        doc.update(property=self.prop, tier=self.tier, seed=self.seed, text=text)
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)
        self.violations.append((path, text))

    def finish(self, level="model_checking", assumptions=()):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples[:4] or ["none"], traces_rejected=self.rejected, events=self.events)
        cov.update(self.cover)
        if self.notes:
            cov["notes"] = self.notes
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for path, text in self.violations[:3]:
            print(text)
        for path, text in self.violations[:3]:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        if not self.violations:
            print("property %s held: %d traces accepted (%d events), %d states, %.1f s" %
                  (self.prop, self.traces, self.events, self.states, time.time() - self.t0))
        if self.traces == 0 and not self.violations:
            raise HarnessError("nothing was validated")
        return 1 if self.violations else 0


class PortPool:
    """Gives every scenario its own range of ports."""

    def __init__(self):
        self.next = random.Random(os.getpid() ^ time.time_ns()).randrange(0, 180)
        self.lock = threading.Lock()

    def take(self):
        with self.lock:
            self.next = (self.next + 1) % 180
            return 21000 + 60 * self.next   # 21000..31800, below the ephemeral range

    def assign(self, scn):
        if scn.get("net") == "tcp" and "base" not in scn:
            scn["base"] = self.take()
            subst(scn, scn["base"])

    def rebase(self, scn):
        old = scn["base"]
        new = self.take()

        def f(x):
            if isinstance(x, bool):
                return x
            if isinstance(x, int):
                return x - old + new if old <= x < old + 60 else x
            if isinstance(x, str):
                return re.sub(r"(:|^)(\d{5})$", lambda m: m.group(1) + str(int(m.group(2)) - old + new) if old <= int(m.group(2)) < old + 60 else m.group(0), x)
            if isinstance(x, list):
                return [f(y) for y in x]
            if isinstance(x, dict):
                return {k: f(v) for k, v in x.items()}
            return x
        return f(scn)


def subst(x, base):
    """Replaces "@n" in strings by port base+n."""
    def f(y):
        if isinstance(y, str):
            return re.sub(r"@(\d+)", lambda m: str(base + int(m.group(1))), y)
        if isinstance(y, list):
            return [f(z) for z in y]
        if isinstance(y, dict):
            return {k: f(v) for k, v in y.items()}
        return y
    for k in list(x):
        x[k] = f(x[k])


def harness_panic(out):
    """Whether a panic happened in the harness's own code."""
    m = re.search(r"^panic: .*?\n\ngoroutine \d+[^\n]*:\n(.*?)(?:\n\n|\Z)", out, re.S | re.M)
    if not m:
        return False
    for line in m.group(1).split("\n"):
        if line.startswith("\t") or line.startswith("panic(") or line.startswith("runtime.") or line.startswith("testing.") or line.startswith("created by"):
            continue
        return line.startswith("verif/harness")
    return False


def crash_line(out):
    for pat in (r"^(panic: .*)$", r"^(fatal error: .*)$"):
        m = re.search(pat, out, re.M)
        if m:
            return m.group(1)[:300]
    return out.strip().split("\n")[-1][:300] if out.strip() else ""
