"""The suites: each explores one part of the specification, replays its
behaviours into the library, and validates recorded behaviours with TLC."""
import json, os
from concurrent.futures import ThreadPoolExecutor
from .core import ToolError


def validate_trace(ctx, suite, module, cfg, trace, name, workers=1, heap="3g"):
    """Checks one recorded file against a trace specification."""
    lines = sum(1 for _ in open(trace))
    stats, out = ctx.tlc(name, module, cfg, env={"TRACE": trace, "PROP": ctx.prop}, workers=workers,
                         allow=(10, 11, 12, 13, 75, 76, 77), heap=heap)
    rejected = stats["printed"].get("REJECTED")
    pos = None
    for l in out.splitlines():
        if l.startswith('"REJECTED '):
            pos = json.loads(json.loads(l)[len("REJECTED "):])
    if pos is not None:
        n = pos["line"]
        rows = open(trace).read().split("\n")
        start = n - 1
        while start > 0 and not json.loads(rows[start]).get("first", json.loads(rows[start]).get("op") == "new" or
                                                            (isinstance(json.loads(rows[start]).get("op"), dict) and json.loads(rows[start])["op"].get("o") == "new")):
            start -= 1
        history = [json.loads(r) for r in rows[start:n]]
        ctx.violation(suite, "trace", "%s line %d" % (module, n),
                      "the specification does not allow what the library did in the last step of this recorded history",
                      {"history": history[-12:], "skipped": max(0, len(history) - 12)})
    elif stats["code"] != 0:
        raise ToolError("TLC on %s ended with %d:\n%s" % (module, stats["code"], out[-4000:]))
    return lines, stats


def omap(ctx, aspects):
    """Ordered maps: P01 P02 P03."""
    def generate():
        stats, _ = ctx.tlc("omap", "MCOMap", sink=ctx.path("omap"), workers=4)
        return stats

    def record(i):
        f = ctx.path("omap-trace-%d.nd" % i)
        n, size = (400, 40) if ctx.thorough else (84, 25)
        r = ctx.run_harness("omap-record", trace=f, seed=ctx.seed * 1000 + i, n=n, size=size)
        if "crashed" in r:
            ctx.judge("omap-record", r, None)
            return 0, 0, 0
        lines, st = validate_trace(ctx, "omap-trace", "TraceOMap", "TraceOMap.cfg", f, "tomap%d" % i)
        return r["stats"]["traces"], lines, st["distinct"]

    with ThreadPoolExecutor(8) as ex:
        gen = ex.submit(generate)
        ex.submit(ctx.harness)
        recs = [ex.submit(record, i) for i in range(24 if ctx.thorough else 3)]
        stats = gen.result()
        walks = []
        if ctx.thorough:
            walks = [ctx.seed * 7919 + i for i in range(6)]
        else:
            walks = [ctx.seed]
        for s in walks:
            r = ctx.run_harness("omap-replay", **{"in": ctx.path("omap.T"), "seed": s})
            ctx.judge("omap-replay", r, aspects)
            if "stats" in r:
                ctx.count("omap", traces=r["stats"].get("maps", 0), samples=r["samples"][:2],
                          replayed=r["stats"])
        for f in recs:
            traces, lines, _ = f.result()
            ctx.count("omap", traces=traces)
            ctx.coverage["suites"]["omap"]["recorded_calls"] = ctx.coverage["suites"]["omap"].get("recorded_calls", 0) + lines
    ctx.count("omap", states=stats["distinct"], transitions=stats["generated"], model=stats)


def catalogue(ctx, suite, module, command, aspects, slices, tag, repeat=1, workers=4, **flags):
    """TLC works through slices of a catalogue and prints what has to happen;
    the library has to do the same."""
    def generate(s):
        stats, _ = ctx.tlc(suite + "-" + s, module, env={"SLICE": s}, sink=ctx.path(suite + "-" + s), workers=workers, heap="4g")
        return stats

    def replay(s, stats):
        f = ctx.path("%s-%s.%s" % (suite, s, tag))
        for i in range(repeat):
            r = ctx.run_harness(command, **{"in": f, "seed": ctx.seed + i}, **flags)
            ctx.judge(command, r, aspects)
            if "stats" in r:
                ctx.count(suite, traces=r["stats"].get("parsed", r["stats"].get("checked", 0)), samples=r["samples"][:1],
                          **{"replayed " + s: r["stats"]})
        os.remove(f)
        ctx.count(suite, states=stats["distinct"], transitions=stats["generated"], **{"model " + s: stats})

    with ThreadPoolExecutor(3) as ex:
        ex.submit(ctx.harness)
        jobs = [(s, ex.submit(generate, s)) for s in slices]
        for s, j in jobs:
            replay(s, j.result())


TYPE_SLICES = ("shorts", "singles", "doubles", "pairs", "fulls", "examples", "xml", "structures")


def types(ctx, aspects, slices=TYPE_SLICES, places=1):
    """Type definitions: TLC reads a catalogue of them with TypeParser.tla, the
    library has to read and write each the same way, wherever it stands."""
    catalogue(ctx, "types", "MCTypeParser", "types-replay", aspects, TYPE_SLICES if ctx.thorough else slices, "C",
              repeat=4 if ctx.thorough else 1, n=6 if ctx.thorough else places, mode="styles")


DOC_SLICES = ("plains", "singles", "doubles", "docs", "triples")


def docs(ctx, aspects, slices=DOC_SLICES[:4]):
    """Documents: the same with DocParser.tla."""
    catalogue(ctx, "docs", "MCDocParser", "docs-replay", aspects, DOC_SLICES if ctx.thorough else slices, "C",
              repeat=6 if ctx.thorough else 2, mode="styles")


def builder(ctx, aspects, slices):
    """Builder calls: TLC explores sequences of them with Builder.tla, the
    library has to end up in the same state after each."""
    catalogue(ctx, "builder", "MCBuilder", "builder-replay", aspects, slices, "B", repeat=6 if ctx.thorough else 1)


def judged(ctx, suite, trace, name, aspect="session"):
    """Has TLC judge every recorded step; a step it rejects is a violation."""
    sink = ctx.path(name)
    rows = open(trace).read().rstrip("\n").split("\n")
    # The last line is a step no action allows: TLC has to say so.
    rows.append(json.dumps(dict(json.loads(rows[0]), op="canary")))
    with open(trace, "a") as h:
        h.write(rows[-1] + "\n")
    stats, _ = ctx.tlc(name, "TraceSession", env={"TRACE": trace, "PROP": ctx.prop}, workers=1, heap="3g", sink=sink)
    rejected = [json.loads(l) for l in open(sink + ".R")] if os.path.exists(sink + ".R") else []
    if [r["line"] for r in rejected if r["failing"] == ["canary"]] != [len(rows)] or stats["distinct"] != len(rows) + 1:
        raise ToolError("TLC did not judge every step of %s" % trace)
    for bad in rejected:
        if bad["failing"] == ["canary"]:
            continue
        n = bad["line"] - 1
        start = n
        while json.loads(rows[start])["op"] != "begin" and start > 0:
            start -= 1
        history = [json.loads(r) for r in rows[start:n + 1]]
        brief = []
        for e in history[:-1]:
            b = {k: e[k] for k in ("op", "s", "verdict")}
            for k in ("from", "class", "text", "path", "on", "call"):
                if e[k] not in ("", 0, []) and (k != "call" or e["op"] == "edit"):
                    b[k] = e[k]
            brief.append(b)
        e = history[-1]
        ctx.violation(suite, aspect, "%s %s" % (e["op"], e["on"] or e["class"]),
                      "after %d steps: %s" % (len(history) - 1, ", ".join(bad["failing"])),
                      {"history": brief[-60:], "step": e, "expected": bad["expected"], "failing": bad["failing"]})
        if len(ctx.violations) > 40:
            break
    return stats


def sessions(ctx, aspects=None, files=None, n=30, size=40):
    """Sessions of several documents, recorded from the library and judged by
    TLC step by step with TraceSession.tla."""
    files = files or (24 if ctx.thorough else 4)
    if ctx.thorough:
        n, size = 60, 60

    def one(i):
        f = ctx.path("session-%d.nd" % i)
        r = ctx.run_harness("session-record", trace=f, seed=ctx.seed * 1000 + i, n=n, size=size)
        ctx.judge("session-record", r, {"crash*"})
        if "crashed" in r:
            return
        st = judged(ctx, "sessions", f, "session%d" % i)
        os.remove(f)
        with ctx.lock:
            had = ctx.coverage["suites"].get("sessions", {})
            total = {k: had.get(k, 0) + v for k, v in r["stats"].items()}
            ctx.count("sessions", states=st["distinct"], transitions=st["generated"], traces=r["stats"].get("events", 0),
                      samples=r["samples"][:1], **total)

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, range(files)))


def texts(ctx, aspects=None):
    """Texts of every sort, each read, inspected, written and read again in a
    process that may die."""
    files, n = (32, 8000) if ctx.thorough else (3, 4000)

    def one(i):
        f = ctx.path("texts-%d.nd" % i)
        r = ctx.run_harness("texts-record", trace=f, seed=ctx.seed * 1000 + i, n=n)
        ctx.judge("texts-record", r, {"crash*"})
        if "crashed" in r:
            return
        st = judged(ctx, "texts", f, "texts%d" % i)
        os.remove(f)
        with ctx.lock:
            had = ctx.coverage["suites"].get("texts", {})
            total = {k: had.get(k, 0) + v for k, v in r["stats"].items()}
            ctx.count("texts", states=st["distinct"], transitions=st["generated"], traces=sum(r["stats"].values()), **total)

    with ThreadPoolExecutor(2) as ex:
        list(ex.map(one, range(files)))


def apart(ctx, aspects, slices=("small", "docs", "types")):
    """Two objects and a sequence of calls on one of them."""
    catalogue(ctx, "apart", "MCBuilder", "builder-replay", aspects, slices, "B", repeat=6 if ctx.thorough else 1, mode="apart")


def together(ctx, aspects):
    """Many histories at the same time, with the race detector on."""
    env = {"GORACE": "halt_on_error=1 exitcode=66"}
    rounds = 12 if ctx.thorough else 1
    for i in range(rounds):
        f = ctx.path("together-%d.nd" % i)
        r = ctx.run_harness("session-record", race=True, env=env, trace=f, seed=ctx.seed * 1000 + 500 + i, n=64, size=30, mode="together")
        ctx.judge("together", r, {"together", "crash*"})
        if "crashed" not in r:
            st = judged(ctx, "together", f, "together%d" % i)
            ctx.count("together", states=st["distinct"], transitions=st["generated"], traces=r["stats"]["events"], **{"sessions %d" % i: r["stats"]})
        f = ctx.path("mapstogether-%d.nd" % i)
        r = ctx.run_harness("omap-record", race=True, env=env, trace=f, seed=ctx.seed * 1000 + 500 + i, n=126, size=25, mode="together")
        ctx.judge("together", r, {"crash*"})
        if "crashed" not in r:
            lines, st = validate_trace(ctx, "together", "TraceOMap", "TraceOMap.cfg", f, "tmaptogether%d" % i)
            ctx.count("together", states=st["distinct"], transitions=st["generated"], traces=lines, **{"maps %d" % i: r["stats"]})


def shared(ctx, aspects):
    """One document or map, and several goroutines that only look at it and
    write it, with the race detector on."""
    env = {"GORACE": "halt_on_error=1 exitcode=66"}
    for i in range(16 if ctx.thorough else 2):
        f = ctx.path("shared-%d.nd" % i)
        r = ctx.run_harness("session-record", race=True, env=env, trace=f, seed=ctx.seed * 1000 + 700 + i, n=120, size=6, mode="shared")
        ctx.judge("shared", r, {"crash*"})
        if "crashed" not in r:
            st = judged(ctx, "shared", f, "shared%d" % i)
            ctx.count("shared", states=st["distinct"], transitions=st["generated"], traces=r["stats"]["events"], **{"documents %d" % i: r["stats"]})
        f = ctx.path("sharedmaps-%d.nd" % i)
        r = ctx.run_harness("omap-record", race=True, env=env, trace=f, seed=ctx.seed * 1000 + 700 + i, n=63, size=8, mode="shared")
        ctx.judge("shared", r, {"crash*"})
        if "crashed" not in r:
            lines, st = validate_trace(ctx, "shared", "TraceOMap", "TraceOMap.cfg", f, "sharedmaps%d" % i)
            ctx.count("shared", states=st["distinct"], transitions=st["generated"], traces=lines, **{"maps %d" % i: r["stats"]})


def faults(ctx, aspects):
    """Readers and writers that fail after every number of bytes."""
    def one(i):
        f = ctx.path("cuts-%d.nd" % i)
        n, size = (80, 2000) if ctx.thorough else (60, 150)
        r = ctx.run_harness("session-record", trace=f, seed=ctx.seed * 1000 + 800 + i, n=n, size=size, mode="cuts")
        ctx.judge("faults", r, {"crash*"})
        if "crashed" in r:
            return
        st = judged(ctx, "faults", f, "cuts%d" % i)
        os.remove(f)
        ctx.count("faults", states=st["distinct"], transitions=st["generated"], traces=r["stats"]["events"], **{"file %d" % i: r["stats"]})

    with ThreadPoolExecutor(4) as ex:
        list(ex.map(one, range(16 if ctx.thorough else 4)))


def findings(ctx):
    """Runs the listed findings again; returns the text of those that still fail."""
    path = os.path.join(os.path.dirname(__file__), "..", "..", "known-findings.json")
    listed = [f for f in json.load(open(path))["findings"] if f["property"] == ctx.prop]
    if not listed:
        return []
    f = ctx.path("findings.json")
    json.dump(listed, open(f, "w"))
    r = ctx.run_harness("findings", **{"in": f})
    if "crashed" in r:
        raise ToolError("findings: " + r["output"])
    return r["info"]["failing"]
