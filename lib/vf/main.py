import json, os, sys, time, traceback
from .core import Ctx, Stop, ToolError, ROOT
from . import suites

# Which suites decide a property, and which aspects of their verdicts concern it.
SESS = ("sessions", None)
PLAN = {
    "P01": [("omap", {"entries", "crash"})],
    "P02": [("omap", {"putnn", "getopt", "crash"})],
    "P03": [("omap", {"yaml", "json", "mode", "crash"})],
    "P04": [("types", {"read:kind", "accept:kind", "reject:kind", "nested:kind"}, {"slices": ("shorts", "structures", "singles")}), SESS],
    "P05": [("types", {"read:facet", "reject:facet"}, {"slices": ("singles", "doubles", "pairs", "fulls", "structures")}), SESS],
    "P06": [("types", {"accept:*"}, {"slices": ("singles", "examples", "xml", "structures")}),
            ("docs", {"accept:*"}, {"slices": ("plains", "singles", "docs")}), SESS],
    "P07": [("texts", None), ("types", {"crash*"}, {"slices": ("singles", "structures")}), ("docs", {"crash*"}, {"slices": ("plains", "singles")}), SESS],
    "P08": [("docs", {"read-api:*", "reject-api:*"}), SESS],
    "P09": [("docs", {"read-lib:*", "reject-lib:*"}, {"slices": ("plains", "singles", "doubles")}), SESS],
    "P10": [("types", {"*:annot", "*:extra", "*:exannot", "*:exextra", "*:xmlextra"}, {"slices": ("singles", "fulls", "examples", "xml")}),
            ("docs", {"*:docextra", "*:rootannot", "*:rootextra"}), SESS],
    "P11": [("types", {"*:example", "*:exannot", "*:exextra"}, {"slices": ("examples", "singles", "fulls")}), SESS],
    "P12": [("docs", {"reparse-api:*"}), ("types", {"reparse-api:*"}, {"slices": ("pairs", "fulls", "examples", "structures")}), SESS],
    "P13": [("docs", {"reparse-lib:*"}), ("types", {"reparse-lib:*"}, {"slices": ("pairs", "fulls", "examples", "structures")}), SESS],
    "P14": [("types", {"write:*"}, {"slices": ("shorts", "singles", "pairs", "fulls", "examples", "structures")}), ("docs", {"write:*"}),
            ("builder", {"builtwrite:*"}, {"slices": ("types", "docs", "small")}), SESS],
    "P15": [("types", {"stable:*"}, {"slices": ("shorts", "fulls", "pairs", "examples", "structures")}), ("docs", {"stable:*"}), SESS],
    "P16": [("builder", {"reg-type:*"}, {"slices": ("types",)}), SESS],
    "P17": [("builder", {"reg-api:*"}, {"slices": ("docs",)}), SESS],
    "P18": [("builder", {"reg-lib:*"}, {"slices": ("docs",)}), SESS],
    "P19": [("builder", {"built:*"}, {"slices": ("types", "docs", "small")}), SESS],
    "P20": [("apart", {"apart:*"}), ("together", None), SESS],
    "P21": [("types", {"nested:*"}, {"slices": ("shorts", "fulls", "doubles", "examples", "structures"), "places": 3}), SESS],
    "P22": [("types", {"*:xml", "*:xmlextra"}, {"slices": ("xml", "singles", "fulls")}), ("docs", {"*:docs", "*:docextra"}, {"slices": ("docs", "doubles", "singles")}), SESS],
    "P23": [("builder", {"reg-example:*", "reg-xml:*", "reg-entry:*"}, {"slices": ("small",)}), SESS],
    "P24": [("faults", None), SESS],
    "P25": [("shared", None)],
    "P26": [("types", {"toraml:*"}, {"slices": ("shorts", "fulls", "pairs", "examples", "xml", "structures")}), SESS],
}

OMAP = ("TLA+ ordered map, TLC, transition replay and trace validation",
        "TLC explores OMap.tla exhaustively for 3 keys and 2 values (all transitions); every transition is replayed into "
        "each of the 21 map types, and random interleaved histories of up to 9 keys recorded from them are validated by TLC (TraceOMap.tla)")
SESSION_NOTE = ("; random sessions (documents opened, edited at any depth, written and opened again, several at a time) are recorded from the "
                "library and TLC judges every step as an action of Session.tla")
READ = ("TLA+ reader and writer of types and documents, TLC, replay of every modelled text, trace validation of recorded sessions",
        "TLC works through TypeParser.tla / DocParser.tla on systematic catalogues (every facet of every kind with values of every "
        "shape, pairs and full sets of facets, example and XML forms, nested structures, document sections alone, in pairs and with malformed forms); "
        "the library must accept or reject, report, write and read back each as specified" + SESSION_NOTE)
BUILD = ("TLA+ builder interface, TLC, replay of call sequences, trace validation of recorded sessions",
         "TLC explores Builder.tla over all calls on every kind of object: every reachable state of bounded call sequences with the expected object and "
         "written tree; the library must be in the same state after each and read back the same" + SESSION_NOTE)
NOTES = {
    **{p: READ for p in ("P04", "P05", "P06", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P21", "P22", "P26")},
    **{p: BUILD for p in ("P16", "P17", "P18", "P19", "P23")},
    **{p: OMAP for p in ("P01", "P02", "P03")},
    "P07": ("TLA+ reader, TLC trace validation of recorded readings of arbitrary texts, replay of modelled malformed texts",
            "Damaged, unusual and random texts are read, inspected through every accessor, written and read again, each in a process with limited memory; "
            "TLC judges every recorded step (crashes are steps no action allows), and the malformed forms of the modelled catalogues are replayed" + SESSION_NOTE),
    "P24": ("TLA+ sessions with failing readers and writers, TLC trace validation of recorded sessions",
            "Random documents are read from readers and written to writers that fail after every number of bytes, and read in pieces; TLC judges every recorded "
            "step as an action of Session.tla" + SESSION_NOTE),
    "P25": ("TLA+ sessions and ordered map, TLC trace validation of concurrent looks at one object, race detector",
            "Four goroutines inspect and write the same random document, and every map type, under the race detector; every look must be the stuttering step of "
            "Session.tla and OMap.tla (same report, same text)"),
    "P20": ("TLA+ sessions of several documents, TLC trace validation of interleaved and concurrent histories, race detector",
            "Every call sequence of MCBuilder is applied to one of two equal objects; interleaved sessions and maps, and the same run concurrently under the race "
            "detector, must be step by step what Session.tla and OMap.tla allow and leave the others alone"),
}


def main(argv):
    keep = "--keep" in argv
    argv = [a for a in argv if not a.startswith("--")]
    if not argv or argv[0] not in PLAN:
        print("usage: check <%s> [quick|thorough]" % "|".join(PLAN))
        return 2
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ctx = Ctx(prop, tier, seed, keep)
    try:
        for name, aspects, *more in PLAN[prop]:
            try:
                getattr(suites, name)(ctx, aspects, **(more[0] if more else {}))
            except Stop:
                break
        known = suites.findings(ctx)
        return report(ctx, known)
    except ToolError as e:
        print("NO ANSWER: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


def report(ctx, known):
    cov = ctx.coverage
    cov["violations"] = len(ctx.violations)
    cov["known_findings"] = len(known)
    if not cov["samples"]:
        cov["samples"] = ["none"]
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking",
          "coverage": cov, "wall_s": round(time.time() - ctx.t0, 2)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", ctx.prop + ".json"), "w") as h:
        json.dump(ev, h, indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, k))
    print("%s %s: %d model states, %d transitions, %d behaviours checked on the library, %.1f s"
          % (ctx.prop, ctx.tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], ev["wall_s"]))
    if not ctx.violations:
        return 0
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, ctx.prop + ".json")
    with open(path, "w") as h:
        json.dump({"property": ctx.prop, "seed": ctx.seed, "tier": ctx.tier, "violations": ctx.violations[:50]}, h, indent=1)
    for v in ctx.violations[:8]:
        print("  %s [%s] %s: %s" % (v["suite"], v["aspect"], v["where"], str(v["what"])[:400]))
    print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
    return 1
