"""What each check does."""
import json
import os
import random
import subprocess

import core
import savefs
from core import CheckError, NCPU, goenv

PLANS = {}


def plan(*props):
    def deco(f):
        for p in props:
            PLANS[p] = f
        return f
    return deco


# ------------------------------------------------------------------ API histories
def annoy_cfg(index, ids, vecs, paths, trees, bad, emit, choices="LC", maxitems=2, props=True):
    s = """SPECIFICATION MCSpec
CONSTANTS
 Index = %s
 Ids = %s
 Vecs = %s
 Paths = %s
 TreeCounts = %s
 LoaderChoices <- %s
 Mapped = {1}
 BadKinds = %s
 Emit = %s
 MaxItems = %d
VIEW AbsView
ACTION_CONSTRAINT MCAction
""" % (index, ids, vecs, paths, trees, choices, bad, "TRUE" if emit else "FALSE", maxitems)
    if props:
        s += ("INVARIANTS TypeOK HeldIffLoaded OpenHasNoTrees LoadedHasTrees DiskHasTrees HeldBounded Reusable\n"
              "PROPERTIES ItemsFrozen OneAtATime SavedIsLoaded\n")
    return s


def maximal(hists):
    """Drops the histories that others start with."""
    keys = sorted(json.dumps(h)[:-1] for h in hists)
    keep = []
    for i, k in enumerate(keys):
        if i + 1 < len(keys) and keys[i + 1].startswith(k + ","):
            continue
        keep.append(json.loads(k + "]"))
    return keep


def api_histories(c, cfg, name, limit, nidx, share, paths):
    out = c.model("MCAnnoy", cfg, name)
    hs = maximal(c.emitted(out))
    total = len(hs)
    rnd = random.Random(c.seed)
    if limit and total > limit:
        hs = rnd.sample(hs, limit)
    f, g = c.path("in", name + ".calls"), c.path("in", name + ".hist")
    with open(f, "w") as fh:
        for h in hs:
            fh.write(json.dumps(h) + "\n")
    run_gen(c, ["cfgapi", "-seed", str(c.seed), "-in", f, "-out", g, "-share", share, "-nidx", str(nidx), "-paths", paths])
    c.cov.setdefault("tlc_histories", []).append(
        {"model": name, "complete_paths": total, "replayed": len(hs)})
    if hs:
        c.sample({"from": name, "calls": hs[len(hs) // 2]})
    return g, len(hs)


def run_gen(c, args):
    r = subprocess.run([c.harness()] + args, env=goenv(), capture_output=True, text=True)
    if r.returncode:
        raise CheckError("generator %s: %s" % (args, r.stderr[-2000:]))


def random_histories(c, n, name="rand"):
    g = c.path("in", name + ".hist")
    run_gen(c, ["genapi", "-seed", str(c.seed), "-n", str(n), "-focus", c.prop, "-out", g])
    with open(g) as f:
        h = json.loads(f.readline())
    c.sample({"from": "random history", "share": h["share"], "first_calls": h["ops"][:8], "length": len(h["ops"])})
    return g, n


def api_part(c, two=True, nrand=None, one_limit=None, two_limit=None):
    q = c.quick
    # The design, exhaustively.
    c.model("MCAnnoy", annoy_cfg("{1}", "{0, 2}", "{1, 2}", '{"a", "b"}', "{1, 3}", '{"empty", "odd", "dir"}', False), "Annoy-1")
    if two:
        if q:
            c.model("MCAnnoy", annoy_cfg("{1, 2}", "{0}", "{1}", '{"a", "b"}', "{1}", '{"odd"}', False, "LC2", 1), "Annoy-2")
        else:
            c.model("MCAnnoy", annoy_cfg("{1, 2}", "{0, 1}", "{1, 2}", '{"a", "b"}', "{1}", '{"odd"}', False, "LC2", 1), "Annoy-2")
    # One implementation history per transition.
    g, n = api_histories(c, annoy_cfg("{1}", "{0, 1}", "{1, 2}", '{"a"}', "{1}", '{"tail", "notree", "dir"}', True, props=False),
                         "calls-1", one_limit or (1500 if q else 0), 1, "", "a")
    c.conform("api", n, "AnnoyTrace", ["-in", g], what="calls-1")
    if two:
        for k, share in enumerate(["", "loader", "parts", "builder"]):
            g, n = api_histories(c, annoy_cfg("{1, 2}", "{0, 1}", "{1}", '{"a"}', "{2}", '{"odd"}', True, props=False),
                                 "calls-2-" + (share or "none"), two_limit or (500 if q else 6000), 2, share, "a")
            c.conform("api", n, "AnnoyTrace", ["-in", g], what="calls-2-" + (share or "none"))
    # Long random histories.
    g, n = random_histories(c, nrand or (400 if q else 6000))
    c.conform("api", n, "AnnoyTrace", ["-in", g], what="random")


@plan("C01", "C06", "C08", "C15", "C16", "C21")
def plan_api(c):
    api_part(c, two=c.prop in ("C16", "C21", "C08", "C06"))
    if c.prop == "C21":
        together_part(c)
    if c.prop in ("C01", "C06"):
        crowd_part(c)
    if c.prop == "C06":
        c.conform("search", 300 if c.quick else 6000, "SearchTrace", mem="3g")
        c.conform("bigsearch", 24 if c.quick else 320, "SearchTrace", mem="3g", per=2)


# ------------------------------------------------------------------ forests
def forest_model(c):
    cfg = """SPECIFICATION Spec
CONSTANTS
 K = %d
 MaxSpan = %d
 MaxTrees = %d
INVARIANTS TreesOK AllUsed RootsFound
PROPERTY Ends
CHECK_DEADLOCK FALSE
"""
    todo = [(2, 5, 1), (3, 5, 1), (2, 3, 2)] if c.quick else [(2, 6, 1), (3, 6, 1), (2, 4, 2), (3, 5, 2)]
    for k, span, trees in todo:
        c.model("Forest", cfg % (k, span, trees), "Forest K=%d span=%d trees=%d" % (k, span, trees), mem="8g")


def forest_part(c, n, focus=""):
    c.conform("forest", n, "ForestTrace", ["-focus", focus] if focus else [])


def crowd_part(c):
    """Very many items, trees, elements or workers."""
    c.conform("crowd", 10 if c.quick else 160, "ForestTrace", per=1 if c.quick else 5, what="crowds")


@plan("C02")
def plan_c02(c):
    forest_model(c)
    forest_part(c, 2500 if c.quick else 12000)
    crowd_part(c)


@plan("C10")
def plan_c10(c):
    forest_model(c)
    c.conform("shares", 26 if c.quick else 140, "ForestTrace")
    forest_part(c, 1500 if c.quick else 8000)
    crowd_part(c)


@plan("C11")
def plan_c11(c):
    forest_model(c)
    c.conform("repeat", 500 if c.quick else 2500, "ForestTrace")


@plan("C23")
def plan_c23(c):
    forest_model(c)
    forest_part(c, 2500 if c.quick else 12000)
    c.conform("handmade", 600 if c.quick else 10000, "SearchTrace", mem="3g")


# ------------------------------------------------------------------ searches
def search_model(c):
    cfg = """SPECIFICATION Spec
CONSTANTS
 Margins <- %s
 MaxBudget = %d
 Shape = "%s"
 Dists = %s
INVARIANTS Descending VisitsRight Weaker AnswersRight Exact DefaultFills SelfFound
PROPERTIES Better Ends
CHECK_DEADLOCK FALSE
"""
    if c.quick:
        todo = [("M2", 6, "two", "{1, 2}"), ("M3", 5, "bucket", "{1, 2, 3}")]
    else:
        todo = [("M3", 7, "two", "{1, 2, 3}"), ("M5", 7, "two", "{1, 2}"), ("M5", 5, "bucket", "{1, 2, 3}"),
                ("M2", 8, "deep", "{1, 2}")]
    for m, b, sh, d in todo:
        c.model("Search", cfg % (m, b, sh, d), "Search %s margins=%s distances=%s" % (sh, m, d), mem="10g")


def search_part(c, n, hand, focus=True):
    c.conform("search", n, "SearchTrace", ["-focus", c.prop] if focus else [], mem="3g", per=max(1, min(100, -(-n // 8))))
    c.conform("bigsearch", 32 if c.quick else 640, "SearchTrace", ["-focus", c.prop], mem="3g", per=2)
    if c.prop in ("C05", "C18"):
        c.conform("pq", 80 if c.quick else 4000, "SearchTrace")
    if hand:
        c.conform("handmade", hand, "SearchTrace", mem="3g", per=max(1, min(200, -(-hand // 8))))


@plan("C03", "C04", "C05")
def plan_search(c):
    search_model(c)
    search_part(c, 800 if c.quick else 15000, 600 if c.quick else 10000)
    if c.prop != "C05":
        crowd_part(c)


@plan("C18")
def plan_c18(c):
    search_model(c)
    search_part(c, 800 if c.quick else 15000, 600 if c.quick else 10000)
    forest_part(c, 800 if c.quick else 8000, "C18")
    g, n = random_histories(c, 200 if c.quick else 3000)
    c.conform("api", n, "AnnoyTrace", ["-in", g], what="random")


@plan("C12")
def plan_c12(c):
    search_model(c)
    c.conform("conc", 160 if c.quick else 3000, "SearchTrace", race=True, per=20 if c.quick else 50, what="conc (race detector)",
              env={"GORACE": "halt_on_error=1 exitcode=66"})
    c.conform("conc", 160 if c.quick else 3000, "SearchTrace", per=20 if c.quick else 50)
    search_part(c, 400 if c.quick else 8000, 0)


# ------------------------------------------------------------------ saving
@plan("C07")
def plan_c07(c):
    cfg = """SPECIFICATION Spec
CONSTANTS
 Way = "%s"
 Chunks = %d
 MaxTries = %d
INVARIANTS Whole FailedKeeps DoneIsNew NothingLeft
PROPERTY Answers
CHECK_DEADLOCK FALSE
"""
    n = (3, 4) if c.quick else (5, 6)
    c.model("SaveFS", cfg % (("rename",) + n), "SaveFS")
    for way in ("inplace", "noerror", "unlinkfirst", "noclean"):
        c.mutant("SaveFS", cfg % ((way,) + n), "SaveFS " + way)
    savefs.run(c, 24 if c.quick else 400)
    c.conform("savelimit", 60 if c.quick else 1500, "SaveFSTrace")
    race_model(c)
    c.conform("saverace", 60 if c.quick else 1500, "TogetherTrace", jobs=4)
    c.conform("saverace", 40 if c.quick else 1000, "TogetherTrace", ["-procs"], jobs=4, what="several processes")


def race_model(c):
    cfg = """SPECIFICATION Spec
CONSTANTS
 Savers = {%s}
 Chunks = %d
 Way = "%s"
INVARIANTS Whole NoneFails OneOfThem NothingLeft BystanderKept
PROPERTY Ends
CHECK_DEADLOCK FALSE
"""
    for who, n in (("1, 2", 3), ("1, 2, 3", 2)):
        c.model("SaveRace", cfg % (who, n if c.quick else n + 1, "unique"), "SaveRace {%s}" % who)
    for way in ("same", "check"):
        c.mutant("SaveRace", cfg % ("1, 2", 2, way), "SaveRace " + way)


# ------------------------------------------------------------------ side by side
TOGETHER = """SPECIFICATION Spec
CONSTANTS
 Index = {%s}
 Rounds = %d
 Way = "%s"
 Emit = %s
CHECK_DEADLOCK FALSE
"""
TOGETHER_P = "VIEW View\nINVARIANTS Alone Registered\nPROPERTY Ends\n"


def together_part(c):
    q = c.quick
    for who, n in (("1, 2", 2), ("1, 2, 3", 1)) + (() if q else (("1, 2, 3", 2), ("1, 2, 3, 4", 1))):
        c.model("Together", TOGETHER % (who, n, "right", "FALSE") + TOGETHER_P, "Together {%s}, %d rounds" % (who, n), mem="8g")
    for way in ("draw", "racy", "latest", "one", "reseed"):
        c.mutant("Together", TOGETHER % ("1, 2", 2, way, "FALSE") + TOGETHER_P, "Together " + way)
    hs = c.emitted(c.model("Together", TOGETHER % ("1, 2", 1, "right", "TRUE") + "ACTION_CONSTRAINT EmitAll\n", "interleavings"))
    f = c.path("in", "interleavings")
    with open(f, "w") as fh:
        for h in hs:
            fh.write(json.dumps(h) + "\n")
    c.cov["tlc_interleavings"] = {"complete": len(hs), "replayed": len(hs)}
    c.sample({"interleaving": hs[len(hs) // 2]})
    c.conform("together", len(hs) * (2 if q else 14), "TogetherTrace", ["-in", f], what="interleavings of TLC")
    c.conform("together", 300 if q else 6000, "TogetherTrace", what="random interleavings")
    c.conform("together", 200 if q else 4000, "TogetherTrace", ["-concurrent"], what="at the same time")
    c.conform("together", 120 if q else 2000, "TogetherTrace", ["-concurrent"], race=True, what="at the same time (race detector)",
              env={"GORACE": "halt_on_error=1 exitcode=66"})


# ------------------------------------------------------------------ concurrent builds
PROTO = """SPECIFICATION Spec
CONSTANTS
 Workers = {%s}
 Trees = %d
 Shape = "%s"
 Items = %d
 Way = "%s"
 Emit = %s
VIEW View
"""
PROTO_P = "INVARIANTS LocksExclude OneWriter NotBehind InRoom Kept Released\nPROPERTY Finishes\n"


def proto_cfg(workers, trees, shape, way="right", emit=False, items=0):
    items = items or (3 if shape == "bucket" else 6)
    return PROTO % (", ".join(map(str, range(workers))), trees, shape, items, way, "TRUE" if emit else "FALSE") + \
        ("ACTION_CONSTRAINT EmitAll\n" if emit else PROTO_P)


def tlc_schedules(c, workers, trees, shape, limit):
    """One schedule of the workers for each step in the state graph."""
    name = "schedules %dx%d %s" % (workers, trees, shape)
    hs = maximal(c.emitted(c.model("BuildProto", proto_cfg(workers, trees, shape, emit=True), name, mem="6g")))
    total = len(hs)
    if limit and total > limit:
        hs = random.Random(c.seed).sample(hs, limit)
    f = c.path("in", "sched-%d-%d-%s" % (workers, trees, shape))
    with open(f, "w") as fh:
        for h in hs:
            fh.write(json.dumps({"shape": shape, "workers": workers, "trees": trees, "w": h}) + "\n")
    c.cov.setdefault("tlc_schedules", []).append({"model": name, "schedules": total, "replayed": len(hs)})
    c.sample({"from": name, "schedule": hs[len(hs) // 2]})
    c.conform("sched", len(hs), "BuildTrace", ["-in", f], what=name)


@plan("C09")
def plan_c09(c):
    q = c.quick
    todo = [(2, 2, "bucket"), (2, 1, "split")] if q else [(2, 3, "bucket"), (2, 2, "split"), (3, 1, "bucket"), (3, 2, "bucket")]
    for w, t, sh in todo:
        c.model("BuildProto", proto_cfg(w, t, sh), "BuildProto %d workers, %d trees each, %s" % (w, t, sh), mem="10g")
    for way in ("count", "move", "pointer", "early", "order", "roots", "grow"):
        c.mutant("BuildProto", proto_cfg(2, 2, "bucket", way, items=1), "BuildProto " + way)
    tlc_schedules(c, 2, 1, "bucket", 0)
    tlc_schedules(c, 2, 2, "bucket", 400 if q else 0)
    tlc_schedules(c, 2, 1, "split", 400 if q else 0)
    tlc_schedules(c, 3, 1, "bucket", 400 if q else 0)
    c.conform("sched", 700 if q else 15000, "BuildTrace", what="sched (random)")
    c.conform("stress", 1000 if q else 20000, "BuildTrace", what="stress (vanishing memory)")
    c.conform("stress", 400 if q else 8000, "BuildTrace", ["-moving=false"], race=True, what="stress (race detector)",
              env={"GORACE": "halt_on_error=1 exitcode=66"})


# ------------------------------------------------------------------ locks
LOCKS = """SPECIFICATION Spec
CONSTANTS
 Callers = {%s}
 Fair = "%s"
 MaxHeld = %d
 Emit = %s
VIEW View
"""


@plan("C22")
def plan_c22(c):
    q = c.quick
    inv = "INVARIANTS Excluding Coexist Independent FreeIsGranted\n"
    who = "1, 2, 3" if q else "1, 2, 3, 4"
    for fair in ("writer", "none"):
        c.model("Locks", LOCKS % (who, fair, 1, "FALSE") + inv, "Locks %s first" % fair)
    for fair in ("shared", "one", "lost"):
        c.mutant("Locks", LOCKS % (who, fair, 1, "FALSE") + inv, "Locks " + fair)
    hs = maximal(c.emitted(c.model("Locks", LOCKS % ("1, 2, 3", "writer", 2, "TRUE") + inv +
                                   "ACTION_CONSTRAINT EmitAll\nCHECK_DEADLOCK FALSE\n", "calls", mem="6g")))
    total = len(hs)
    if q and total > 2500:
        hs = random.Random(c.seed).sample(hs, 2500)
    f = c.path("in", "calls.locks")
    with open(f, "w") as fh:
        for h in hs:
            fh.write(json.dumps(h) + "\n")
    c.cov["tlc_call_sequences"] = {"complete_paths": total, "replayed": len(hs)}
    c.sample({"calls": hs[len(hs) // 2]})
    c.conform("locks", len(hs), "LocksTrace", ["-in", f], what="calls of TLC")
    c.conform("locks", 800 if q else 20000, "LocksTrace", what="random calls")
    c.conform("storm", 300 if q else 6000, "LocksTrace", what="storm")
    c.conform("storm", 160 if q else 3000, "LocksTrace", race=True, what="storm (race detector)",
              env={"GORACE": "halt_on_error=1 exitcode=66"})


# ------------------------------------------------------------------ sorting
PSORT = """SPECIFICATION Spec
CONSTANTS
 Elements <- %s
 MaxLen = %d
 Way = "%s"
 Emit = %s
CHECK_DEADLOCK FALSE
"""
PSORT_P = "INVARIANTS Contract Within KeepsAll\nPROPERTY Ends\n"


@plan("C13")
def plan_c13(c):
    q = c.quick
    out = None
    for way in ("select", "heap"):
        o = c.model("PSort", PSORT % ("E3", 4 if q else 5, way, "TRUE" if way == "select" and q else "FALSE") + PSORT_P,
                    "PSort " + way, mem="8g")
        out = out or o
        c.model("PSort", PSORT % ("E2", 6 if q else 7, way, "FALSE") + PSORT_P, "PSort (ties) " + way, mem="8g")
    for way in ("short", "over", "heapmin"):
        c.mutant("PSort", PSORT % ("E3", 4, way, "FALSE") + PSORT_P, "PSort " + way)
    if not q:
        out = c.model("PSort", PSORT % ("E4", 5, "select", "TRUE") + PSORT_P, "PSort inputs", mem="8g")
    ins = c.emitted(out)
    total = len(ins)
    f = c.path("in", "ranges")
    with open(f, "w") as fh:
        for h in ins:
            fh.write(json.dumps(h) + "\n")
    c.cov["tlc_inputs"] = {"slices_and_ranges": total, "replayed": total}
    c.sample({"slice_and_range": ins[len(ins) // 2]})
    c.conform("psort", total, "OrderTrace", ["-in", f], what="inputs of TLC", per=max(1, min(2000, -(-total // 8))))
    c.conform("psort", 4000 if q else 60000, "OrderTrace", what="random inputs", per=500 if q else 1500)
    c.conform("psortbig", 200 if q else 4000, "OrderTrace", ["-huge", "4" if q else "24"], what="large inputs", per=25, jobs=4)


PQUEUE = """SPECIFICATION Spec
CONSTANTS
 Keys = %s
 Ids = %s
 Max = %d
 Way = "%s"
 Emit = %s
VIEW View
CHECK_DEADLOCK FALSE
"""
PQUEUE_P = "INVARIANTS Complete Longs TopSmallest\nPROPERTY PoppedSmallest\n"


@plan("C14")
def plan_c14(c):
    q = c.quick
    c.model("PQueue", PQUEUE % ("{1, 2}", "{1, 2}", 6 if q else 8, "right", "FALSE") + PQUEUE_P, "PQueue", mem="8g")
    c.model("PQueue", PQUEUE % ("{1, 2, 3}", "{1}", 7 if q else 10, "right", "FALSE") + PQUEUE_P, "PQueue keys", mem="8g")
    for way in ("noup", "left", "keys", "last"):
        c.mutant("PQueue", PQUEUE % ("{1, 2}", "{1, 2}", 5, way, "FALSE") + PQUEUE_P, "PQueue " + way)
    out = c.model("PQueue", PQUEUE % ("{1, 2}", "{1, 2}", 5 if q else 7, "right", "TRUE") + "ACTION_CONSTRAINT EmitAll\n",
                  "PQueue histories", mem="8g")
    hs = maximal(c.emitted(out))
    total = len(hs)
    if q and total > 4000:
        hs = random.Random(c.seed).sample(hs, 4000)
    f = c.path("in", "queue.hist")
    with open(f, "w") as fh:
        for h in hs:
            fh.write(json.dumps(h) + "\n")
    c.cov["tlc_histories"] = {"complete_paths": total, "replayed": len(hs)}
    c.sample({"calls": hs[len(hs) // 2]})
    c.conform("heap", len(hs), "OrderTrace", ["-in", f], what="histories of TLC")
    c.conform("heap", 1500 if q else 40000, "OrderTrace", what="random histories")


# ------------------------------------------------------------------ random generators
RNG = """SPECIFICATION Spec
CONSTANTS
 Gens = {%s}
 Seeds = {%s}
 MaxDraws = %d
 MaxCalls = %d
 Way = "%s"
 Emit = %s
CHECK_DEADLOCK FALSE
"""
RNG_P = "VIEW View\nINVARIANTS SameStream FromTheSeed Reports ZeroIsOne Apart\n"


@plan("C20")
def plan_c20(c):
    q = c.quick
    c.model("Rng", RNG % ("1, 2", "0, 1", 3 if q else 4, 0, "right", "FALSE") + RNG_P, "Rng", mem="8g")
    if not q:
        c.model("Rng", RNG % ("1, 2, 3", "0, 1", 2, 0, "right", "FALSE") + RNG_P, "Rng, three generators", mem="10g")
    for way in ("partial", "unreported", "keeps", "shared", "global", "zero"):
        c.mutant("Rng", RNG % ("1, 2", "0, 1", 2, 0, way, "FALSE") + RNG_P, "Rng " + way)
    # all sequences of calls up to a length
    hs = maximal(c.emitted(c.model("Rng", RNG % ("1, 2", "0, 1", 3, 5 if q else 6, "right", "TRUE") + "ACTION_CONSTRAINT EmitAll\n",
                                   "Rng calls", mem="10g")))
    total = len(hs)
    lim = 3000 if q else 40000
    if total > lim:
        hs = random.Random(c.seed).sample(hs, lim)
    # each with a tail that draws from both, so that what the calls did shows
    f = c.path("in", "rng.calls")
    with open(f, "w") as fh:
        for h in hs:
            fh.write(json.dumps(h + [["draw", 1, 0], ["draw", 2, 0], ["draw", 1, 0], ["clone", 1, 3], ["draw", 3, 0],
                                     ["draw", 3, 0], ["new", 4, 0], ["draw", 4, 0], ["new", 4, 1], ["draw", 4, 0]]) + "\n")
    c.cov["tlc_histories"] = {"complete_paths": total, "replayed": len(hs)}
    c.sample({"calls": hs[len(hs) // 2]})
    c.conform("rng", len(hs), "RngTrace", ["-in", f], what="calls of TLC")
    c.conform("rng", 800 if q else 20000, "RngTrace", what="random calls")


# ------------------------------------------------------------------ the angular distance
METRIC = """SPECIFICATION Spec
CONSTANTS
 Dim = %d
 R = %d
 Way = "%s"
 Emit = %s
"""
METRIC_P = "INVARIANTS AsDefined Symmetric Bounded NoneForParallel FarthestOpposite ScaleFree ZeroVector Ordered\n"


@plan("C19")
def plan_c19(c):
    q = c.quick
    total = []
    for dim, r in ([(1, 5), (2, 2), (2, 4), (3, 1), (3, 2)] if q else [(1, 5), (2, 2), (2, 4), (3, 1), (3, 2), (4, 1)]):
        total.append((dim, c.emitted(c.model("Metric", METRIC % (dim, r, "right", "TRUE") + METRIC_P,
                                             "Metric dim=%d entries to %d" % (dim, r), mem="8g"))))
    for way in ("one", "abs", "zero", "plain", "stale"):
        c.mutant("Metric", METRIC % (2, 2, way, "FALSE") + METRIC_P, "Metric " + way)
    for n, (dim, ps) in enumerate(total):
        seen = sorted({json.dumps(p) for p in ps})
        random.Random(c.seed).shuffle(seen)
        f = c.path("in", "pairs-%d" % n)
        with open(f, "w") as fh:
            for p in seen:
                fh.write(p + "\n")
        c.cov.setdefault("tlc_inputs", []).append({"dimension": dim, "pairs_of_vectors": len(seen)})
        c.conform("metric", -(-len(seen) // 250), "MetricTrace", ["-in", f], what="pairs of TLC, dim %d" % dim)
    c.sample({"pair": json.loads(seen[len(seen) // 2])})
    c.conform("metric", 1500 if q else 40000, "MetricTrace", what="vectors of all lengths")


# ------------------------------------------------------------------ the layout of nodes
LAYOUT = """SPECIFICATION Spec
CONSTANTS
 IdMax = %d
 IdBytes = %d
 ElBytes = %d
 Dim = %d
 Way = "%s"
INVARIANTS Apart InPlace Room VectorFits ChildrenFit FileWhole AllBack
CHECK_DEADLOCK FALSE
"""


@plan("C17")
def plan_c17(c):
    q = c.quick
    for p in [(16, 1, 1, 1), (16, 1, 2, 2), (32, 2, 1, 3), (12, 2, 2, 1)] + ([] if q else [(48, 1, 1, 5), (40, 2, 2, 4)]):
        c.model("Layout", LAYOUT % (p + ("right",)), "Layout %d ids of %d bytes, %d elements of %d" % (p[0], p[1], p[3], p[2]))
    for way in ("narrow", "bytes", "file", "count", "overfull", "union", "grow"):
        c.mutant("Layout", LAYOUT % (16, 1, 2, 2, way), "Layout " + way)
    c.conform("nodes", 320 if q else 6000, "LayoutTrace")
    c.conform("guarded", 800 if q else 20000, "LayoutTrace")
    c.conform("huge", 8 if q else 64, "LayoutTrace", per=1 if q else 4, jobs=4)
    c.assumptions.append("memory beyond what is written is reserved and not used, so that indexes of up to 160 GB can be laid out")


# ------------------------------------------------------------------ memory
BUILDMEM = """SPECIFICATION Spec
CONSTANTS
 Sizes = {%s}
 Values = {1, 2}
 MaxOps = %d
 Way = "%s"
 Emit = %s
CHECK_DEADLOCK FALSE
"""
FILEMEM = """SPECIFICATION Spec
CONSTANTS
 Paths = {%s}
 Contents = {1, 2}
 MaxOpens = %d
 MaxOps = %d
 Way = "%s"
 Emit = %s
CHECK_DEADLOCK FALSE
"""


@plan("C24")
def plan_c24(c):
    q = c.quick
    c.model("BuildMem", BUILDMEM % ("1, 2, 3", 6 if q else 8, "right", "FALSE") + "VIEW View\nINVARIANTS Enough Kept\n", "BuildMem", mem="8g")
    for way in ("forget", "short", "dirty", "same"):
        c.mutant("BuildMem", BUILDMEM % ("1, 2, 3", 5, way, "FALSE") + "VIEW View\nINVARIANTS Enough Kept\n", "BuildMem " + way)
    inv = "VIEW View\nINVARIANTS AsOpened Reported Refused\n"
    c.model("FileMem", FILEMEM % ('"a", "b"', 3, 7 if q else 9, "right", "FALSE") + inv, "FileMem", mem="8g")
    for way in ("cached", "all", "latest", "first", "keeps", "twice"):
        c.mutant("FileMem", FILEMEM % ('"a", "b"', 3, 6, way, "FALSE") + inv, "FileMem " + way)
    for what, mod, cfg in (("build", "BuildMem", BUILDMEM % ("1, 2, 3", 4 if q else 5, "right", "TRUE")),
                           ("files", "FileMem", FILEMEM % ('"a", "b"', 3, 5 if q else 6, "right", "TRUE"))):
        hs = c.emitted(c.model(mod, cfg + "VIEW View\nACTION_CONSTRAINT EmitAll\n", mod + " calls", mem="8g"))
        total, lim = len(hs), 3000 if q else 40000
        if total > lim:
            hs = random.Random(c.seed).sample(hs, lim)
        f = c.path("in", what + ".calls")
        with open(f, "w") as fh:
            for h in hs:
                fh.write(json.dumps(h) + "\n")
        c.cov.setdefault("tlc_histories", []).append({"model": mod, "one_per_transition": total, "replayed": len(hs)})
        c.sample({"calls": hs[len(hs) // 2]})
        c.conform("memory", len(hs), "MemTrace", ["-what", what, "-in", f], what=what + ": calls of TLC")
        c.conform("memory", 1200 if q else 20000, "MemTrace", ["-what", what], what=what + ": random calls")
    c.conform("memory", 200 if q else 4000, "MemTrace", ["-what", "crowd"], what="callers at the same time")
    c.conform("memory", 100 if q else 2000, "MemTrace", ["-what", "crowd"], race=True, what="callers at the same time (race detector)",
              env={"GORACE": "halt_on_error=1 exitcode=66"})


# ------------------------------------------------------------------ builders
BUILDER = """SPECIFICATION Spec
CONSTANTS
 Builders = {%s}
 Fields = {"dim", "f"%s}
 Values = {1, 2}
 Must = {"dim"}
 MaxOps = %d
 MaxMade = %d
 Way = "%s"
 Emit = %s
CHECK_DEADLOCK FALSE
VIEW View
"""


@plan("C25")
def plan_c25(c):
    q = c.quick
    c.model("Builder", BUILDER % ("1, 2", ', "g"', 6 if q else 7, 2, "right", "FALSE") + "INVARIANT Assembled\n", "Builder", mem="8g")
    for way in ("late", "first", "reset", "shared", "sticks", "others", "once"):
        c.mutant("Builder", BUILDER % ("1, 2", ', "g"', 5, 2, way, "FALSE") + "INVARIANT Assembled\n", "Builder " + way)
    hs = []
    for b, f, n, m in (("1", ', "g"', 5, 2), ("1, 2", "", 5, 2)):
        hs += c.emitted(c.model("Builder", BUILDER % (b, f, n, m, "right", "TRUE") + "ACTION_CONSTRAINT EmitAll\n",
                                "Builder calls {%s}" % b, mem="8g"))
    total, lim = len(hs), 2900 if q else 40000
    if total > lim:
        hs = random.Random(c.seed).sample(hs, lim)
    f = c.path("in", "builder.calls")
    with open(f, "w") as fh:
        for h in hs:
            fh.write(json.dumps(h) + "\n")
    c.cov["tlc_histories"] = [{"model": "Builder", "one_per_transition": total, "replayed": len(hs)}]
    c.sample({"calls": hs[len(hs) // 2]})
    c.conform("builder", len(hs), "BuilderTrace", ["-in", f], what="calls of TLC")
    c.conform("builder", 500 if q else 12000, "BuilderTrace", what="random calls")


# ------------------------------------------------------------------ the precision tool
TOOL = """SPECIFICATION Spec
CONSTANTS
 Items = %d
 Limits = %d
 Ten = %d
 Way = "%s"
 KeepChoices = {TRUE, FALSE}
 FileChoices = {TRUE, FALSE}
INVARIANTS Truth Files Whole Quiet
PROPERTY Ends
CHECK_DEADLOCK FALSE
"""


@plan("C26")
def plan_c26(c):
    q = c.quick
    c.model("Tool", TOOL % ((2, 3, 2, "right") if q else (3, 3, 2, "right")), "Tool", mem="8g")
    for way in ("last", "cross", "early", "leaves", "both"):
        c.mutant("Tool", TOOL % (2, 2, 2, way), "Tool " + way)
    exe = c.path("precision")
    r = subprocess.run(["go", "build", "-o", exe, "./cmd/precision"], cwd=core.REPO, env=goenv(GOFLAGS="-mod=readonly"),
                       capture_output=True, text=True)
    if r.returncode:
        raise CheckError("the precision tool does not build:\n" + r.stdout + r.stderr)
    c.conform("tool", 200 if q else 4000, "ToolTrace", ["-exe", exe], what="runs of the tool")


# ------------------------------------------------------------------ how the items are divided
DIVIDE = """SPECIFICATION Spec
CONSTANTS
 Items = {%s}
 K = 1
 Tries = %d
 GoodNum = 3
 GoodDen = 4
 WorstNum = 4
 WorstDen = 5
 Way = "%s"
INVARIANTS Balanced Honest Follows Shallow
PROPERTY Ends
CHECK_DEADLOCK FALSE
"""


def grouped(*sizes):
    return ", ".join(str(10 * g + k) for g, m in enumerate(sizes) for k in range(m))


@plan("C27")
def plan_c27(c):
    q = c.quick
    for sizes in [(6,), (2, 2), (4, 1), (3, 2), (1, 1, 1, 1)] + ([] if q else [(7,), (3, 3), (5, 1), (2, 2, 2)]):
        c.model("Divide", DIVIDE % (grouped(*sizes), 2 if q else 3, "right"), "Divide groups of %s" % (sizes,), mem="8g")
    for way, sizes in (("once", (6,)), ("plane", (6,)), ("skip", (2, 2)), ("some", (6,)), ("settle", (6,))):
        c.mutant("Divide", DIVIDE % (grouped(*sizes), 2, way), "Divide " + way)
    c.conform("divide", 700 if q else 20000, "DivideTrace", what="splits of real trees")


# ------------------------------------------------------------------ nodes in memory, helper functions
BLOCKS = """SPECIFICATION Spec
CONSTANTS
 IdBytes = %d
 ElBytes = %d
 Lifted = %s
 Dim = %d
 Steps = %d
 Way = "%s"
INVARIANTS Guarded
PROPERTIES Apart KeepsRest Obeyed Unit Measured Level
CHECK_DEADLOCK FALSE
"""


@plan("C28")
def plan_c28(c):
    q = c.quick
    for ids in (4, 8):
        for el in (4, 8):
            for dot in ("FALSE", "TRUE"):
                for dim in (1, 2) if q else (1, 2, 3, 4):
                    c.model("Blocks", BLOCKS % (ids, el, dot, dim, 3 if dim == 1 or not q else 2, "right"),
                            "Blocks %d %d %s %d" % (ids, el, dot, dim), mem="8g")
    for way, ids, el, dot, dim, steps in (("units", 4, 8, "TRUE", 1, 3), ("tail", 4, 4, "FALSE", 1, 3), ("overfull", 8, 4, "FALSE", 2, 3),
                                          ("factor", 4, 4, "TRUE", 1, 4), ("short", 4, 8, "FALSE", 2, 3), ("zero", 4, 4, "FALSE", 1, 3),
                                          ("raised", 4, 4, "TRUE", 1, 4)):
        c.mutant("Blocks", BLOCKS % (ids, el, dot, dim, steps, way), "Blocks " + way)
    c.conform("blocks", 400 if q else 8000, "BlocksTrace", what="nodes in memory and helper functions")
