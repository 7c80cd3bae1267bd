"""Running TLC, building the harness, collecting what they say."""
import fnmatch, json, os, re, shutil, subprocess, sys, tempfile, threading, time

ROOT = os.path.realpath(os.path.join(os.path.dirname(__file__), "..", ".."))
REPO = os.environ.get("VERIF_REPO", "/repo")


class ToolError(Exception):
    """Something other than the code under test went wrong: no answer."""


class BuildError(ToolError):
    pass


class Stop(Exception):
    """There is a verdict, and no use in going on."""


def go_env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off")
    e.setdefault("HOME", "/root")
    e.pop("GOWORK", None)
    return e


def concerns(aspect, patterns):
    """Whether an aspect of a verdict is among those a property is about."""
    return patterns is None or any(fnmatch.fnmatchcase(aspect, p) for p in patterns)


def essence(text):
    """The part of TLC's output that says what went wrong."""
    i = text.find("Error:")
    return text[i:i + 2500] if i >= 0 else text[-2500:]


class Ctx:
    def __init__(self, prop, tier, seed, keep=False):
        self.prop, self.tier, self.seed, self.keep = prop, tier, seed, keep
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="ramlverif-%s-" % prop)
        self.lock = threading.RLock()
        self.locks = {}
        self.results = {}
        self.violations = []
        self.suppressed = 0
        self.known = []
        self.coverage = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                         "samples": [], "suites": {}}

    def close(self):
        if self.keep:
            print("kept", self.dir)
        else:
            shutil.rmtree(self.dir, ignore_errors=True)

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def once(self, key, f):
        """Runs f once per key, also when called from several threads."""
        with self.lock:
            lock = self.locks.setdefault(key, threading.RLock())
        with lock:
            if key not in self.results:
                self.results[key] = f()
            return self.results[key]

    # ---- harness -------------------------------------------------------
    def harness(self, race=False):
        return self.once(("harness", race), lambda: self._build(race))

    def _build(self, race):
        d = self.path("hb-race" if race else "hb")
        os.makedirs(d)
        src = os.path.join(ROOT, "harness")
        for f in os.listdir(src):
            if f.endswith(".go"):
                shutil.copy(os.path.join(src, f), d)
        shutil.copy(os.path.join(REPO, "go.sum"), d)
        mod = open(os.path.join(REPO, "go.mod")).read()
        mod = re.sub(r"(?m)^module .*$", "module ramlverif", mod)
        mod = re.sub(r"(?m)^go .*$", "go 1.21", mod)
        mod += "\nrequire github.com/Foxcapades/lib-go-raml v0.0.0\n"
        mod += "\nreplace github.com/Foxcapades/lib-go-raml => %s\n" % REPO
        open(os.path.join(d, "go.mod"), "w").write(mod)
        t = time.time()
        cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", "ramlverif", "."]
        p = subprocess.run(cmd, cwd=d, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError("the harness does not build against %s:\n%s" % (REPO, p.stdout[-4000:]))
        self.log("built the harness%s in %.1f s" % (" with the race detector" if race else "", time.time() - t))
        return os.path.join(d, "ramlverif")

    def run_harness(self, command, race=False, timeout=None, env=None, **flags):
        """Runs a subcommand and returns its Result."""
        binary = self.harness(race)
        timeout = timeout or (1800 if self.thorough else 240)
        with self.lock:
            self.nrun = getattr(self, "nrun", 0) + 1
            out = self.path("result-%d.json" % self.nrun)
        cmd = [binary, command, "-out", out]
        if not race:
            cmd = ["/bin/sh", "-c", 'ulimit -v 12000000; exec "$0" "$@"'] + cmd
        for k, v in flags.items():
            if v is not None:
                cmd += ["-" + k, str(v)]
        e = go_env()
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=self.dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            return {"crashed": "timeout", "output": "no end after %d s: %s" % (timeout, " ".join(cmd))}
        if p.returncode == 3:
            raise ToolError("harness: " + p.stdout[-2000:])
        if p.returncode != 0 or not os.path.exists(out):
            # Something nothing can recover from: stack overflow, runaway memory, race.
            return {"crashed": p.returncode, "output": p.stdout[-6000:], "cmd": cmd}
        r = json.load(open(out))
        r["output"] = p.stdout
        return r

    # ---- TLC -----------------------------------------------------------
    def specdir(self):
        def f():
            d = self.path("spec")
            shutil.copytree(os.path.join(ROOT, "spec"), d)
            return d
        return self.once("specdir", f)

    def tlc(self, name, module, cfg=None, env=None, workers=4, timeout=None, heap="3g", sink=None, allow=(), cfgtext=None):
        """Runs TLC; returns (stats, output).  Lines printed with a tag of the
        form "X {json}" go, without the quotes, to sink as one JSON per line."""
        d = self.specdir()
        meta = self.path("meta-" + name)
        if cfgtext is not None:
            cfg = "gen-%s.cfg" % name
            open(os.path.join(d, cfg), "w").write(cfgtext)
        e = dict(os.environ)
        e.update(env or {})
        e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m -XX:+UseParallelGC -Dfile.encoding=UTF-8 -Djava.io.tmpdir=%s" % (heap, self.dir)
        cmd = ["tlc", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers), "-config", cfg or module + ".cfg", module + ".tla"]
        t = time.time()
        out, counts = [], {}
        sinks = {}
        proc = subprocess.Popen(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                encoding="utf-8", errors="replace")
        timer = threading.Timer(timeout or (3600 if self.thorough else 850), proc.kill)
        timer.start()
        try:
            for line in proc.stdout:
                if len(line) > 3 and line[0] == '"' and line[2] == " ":
                    s = json.loads(line)
                    tag = s[0]
                    counts[tag] = counts.get(tag, 0) + 1
                    if sink:
                        if tag not in sinks:
                            sinks[tag] = open(sink + "." + tag, "w")
                        sinks[tag].write(s[2:] + "\n")
                else:
                    out.append(line)
            proc.wait()
        finally:
            timer.cancel()
            for h in sinks.values():
                h.close()
            shutil.rmtree(meta, ignore_errors=True)
        text = "".join(out)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        stats = {"generated": int(m.group(1)) if m else 0, "distinct": int(m.group(2)) if m else 0,
                 "printed": counts, "seconds": round(time.time() - t, 1), "code": proc.returncode}
        if proc.returncode != 0 and proc.returncode not in allow:
            raise ToolError("TLC on %s ended with %d:\n%s" % (module, proc.returncode, essence(text)))
        return stats, text

    # ---- verdicts ------------------------------------------------------
    def count(self, suite, states=0, transitions=0, traces=0, samples=(), **info):
        with self.lock:
            c = self.coverage
            c["states"] += states
            c["transitions"] += transitions
            c["traces_validated_against_impl"] += traces
            for s in samples:
                if len(c["samples"]) < 6:
                    c["samples"].append(s)
            c["suites"].setdefault(suite, {}).update(info)

    def judge(self, suite, result, aspects):
        """Keeps the mismatches of a harness result that concern the property."""
        if "crashed" in result:
            self.violation(suite, "crash", "harness", "the process died (%s)" % result["crashed"], {"output": result["output"]})
            if result["crashed"] == "timeout":
                raise Stop()
            return
        total = 0
        for a, n in result["total"].items():
            if concerns(a, aspects):
                total += n
            else:
                self.suppressed += n
        for m in result["mismatches"]:
            if concerns(m["aspect"], aspects):
                self.violation(suite, m["aspect"], m["where"], m["what"], m["case"])
        return total

    def violation(self, suite, aspect, where, what, case):
        with self.lock:
            self.violations.append({"suite": suite, "aspect": aspect, "where": where, "what": what, "case": case})
