#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's working tree."""
import os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import universes


def q(quick, thorough):
    return thorough if THOROUGH else quick


def explore_map(r, sets):
    """Runs TrieMC over the universes and returns the files for the replay."""
    us = []
    for s in sets:
        us += universes.make(SEED, **s)
    hid = int(any(s.get("nhash") for s in sets))
    us += universes.ladder(SEED, 2, hid) + universes.cuts(SEED, q(0, 1), hid) + \
        universes.surrounded(SEED, q(24, 100), 3, 2 - hid, hid)
    uf = r.write("universes.json", us)
    out = r.tlc("TrieMC", env={"UNIVERSES": uf, "EMIT": 1})
    return uf, out


def value_sets(n5, n6, big):
    return [dict(count=n5, nkeys=5, nvals=2, salt="a"),
            dict(count=n6, nkeys=6, nvals=1, salt="b", curated=False),
            dict(count=big, nkeys=4, nvals=3, salt="c", curated=False)]


def hash_sets(n):
    return [dict(count=n, nkeys=5, nvals=1, nhash=1, salt="h"),
            dict(count=n // 2, nkeys=4, nvals=2, nhash=1, salt="i", curated=False),
            dict(count=n // 3, nkeys=4, nvals=1, nhash=2, salt="j", curated=False)]


def map_check(prop, sets, walks, walk_len=120):
    r = Run(prop)
    uf, out = explore_map(r, sets)
    h = r.harness("map", uf, out, env={"VH_WALKS": walks, "VH_WALK_LEN": walk_len})
    r.traces += h["counts"].get("transitions_replayed", 0) + h["counts"].get("walks", 0) + \
        h["counts"].get("bulk_runs", 0) + h["counts"].get("lockstep_walks", 0)
    return r


def traced(r, episodes, length=120):
    if r.total:
        return r        # decided
    r.validate(episodes, length)
    return r


def scaled(r):
    """Large tries."""
    if r.total:
        return r
    big = q([[16] * 3, [16] * 4], [[16] * 3, [2] * 13, [3, 16, 16, 7], [16, 2, 16, 16], [5] * 6, [16] * 4])
    uf = r.write("families.json", universes.families(SEED, q(40, 250), q(24, 150), big))
    out = r.tlc("ScaleMC", env={"UNIVERSES": uf})
    h = r.harness("scale", uf, out, q(40, 80))
    r.traces += h["counts"].get("family_walks", 0)
    return r


def refutes(r, module, code, **env):
    """The specification of a wrong design has to be refuted: without this, an invariant that
    holds of everything would go unnoticed."""
    r.tlc(module, env=env, out="%s-%s.out" % (module, code), refuted=code)


# wrong algorithms: the module, the operator replaced, its replacement, the property refuting it
FLAWS = {
    "C01": [("TrieFlaws", "AlgGet", "GetByPrefix", "Lookups"),
            ("TrieFlaws", "AlgGet", "GetEmptyValue", "Lookups"),
            ("TrieFlaws", "SplitAt", "SplitLosesValue", "ReadBack")],
    "C02": [("TrieFlaws", "Shrink", "ShrinkForgetsValue", "ReadBack"),
            ("TrieFlaws", "CollapseExt", "CollapseSwapped", "ReadBack")],
    "C04": [("TrieFlaws", "Shrink", "ShrinkNever", "Refines"),
            ("TrieFlaws", "Shrink", "ShrinkKeepsValueBranch", "Refines"),
            ("TrieFlaws", "CollapseExt", "CollapseNever", "Refines"),
            ("TrieFlaws", "SplitAt", "SplitKeepsEmpty", "Refines")],
    "C07": [("HideFlaws", "Guess", "NoGuess", "SameRoot")],
    "C08": [("SubsetFlaws", "FromTracked", "TrackedAnything", "SameRootHolds"),
            ("SubsetFlaws", "FromTracked", "TrackedValueless", "AnswersHold")],
    "C09": [("SubsetFlaws", "FromTracked", "TrackedNever", "MinimalHolds"),
            ("SubsetFlaws", "FromTracked", "TrackedLonger", "MinimalHolds"),
            ("SubsetFlaws", "FromTracked", "TrackedLeaves", "MinimalHolds"),
            ("SubsetFlaws", "Visit", "VisitBeyond", "AsDefinedHolds")],
    "C11": [("TrieFlaws", "AlgDelRec", "DelIgnoresHidden", None),
            ("TrieFlaws", "MkNode", "NodeWithoutPath", "ReadBack")],
    "C12": [("TrieFlaws", "AlgItems", "ItemsWithoutBranch", "Iteration"),
            ("TrieFlaws", "AlgItems", "ItemsWithoutSlot", "Iteration")],
    "C15": [("NibFlaws", "Rev", "RevNot", "Laws"), ("NibFlaws", "Lcp", "LcpCount", "Laws"),
            ("NibFlaws", "Lcp", "LcpFromBack", "Laws"), ("NibFlaws", "Drop", "DropFromBack", "Laws"),
            ("NibFlaws", "Take", "TakeFromBack", "Laws"), ("NibFlaws", "MaxNibbles", "Shorter", "Laws")],
    "C16": [("ConvFlaws", "Digit", "DigitSmall", "Laws"), ("ConvFlaws", "StripZeros", "StripOne", "Laws"),
            ("ConvFlaws", "PackBytes", "PackOnRight", "Laws"), ("ConvFlaws", "Show", "ShowTight", "Laws")],
    "C17": [("ConvFlaws", "HexPrefix", "PrefixPadded", "Laws"),
            ("ConvFlaws", "HexPrefix", "PrefixNoLeaf", "Laws"),
            ("ConvFlaws", "HexPrefixDecode", "DecodeAnyFlag", "Decoding")],
    "C20": [("DebugFlaws", "DiffPoints", "DiffFirstSlot", "Props"),
            ("DebugFlaws", "DiffPoints", "DiffNoValues", "Props"),
            ("DebugFlaws", "Reportable", "ReportShallow", "Props")],
    "C21": [("DebugFlaws", "QueryPath", "PathClamped", "Props"),
            ("DebugFlaws", "QueryPath", "PathSkipsLeaf", "Props")],
    "C22": [("DebugFlaws", "Stats", "StatsFlat", "Props"), ("DebugFlaws", "Stats", "StatsHighHash", "Props")],
    "C23": [("ValueFlaws", "Stored", "StoredShort", "Props"), ("ValueFlaws", "Stored", "StoredLittle", "Props"),
            ("ValueFlaws", "Stored", "StoredHashValue", "Props")],
    "C24": [("SubsetFlaws", "FromTracked", "TrackedAnything", "ComposesHolds")],
    "C26": [("KeyedFlaws", "KeyOf", "KeyPadded", "Props"), ("KeyedFlaws", "KeyOf", "KeyTrimmed", "Props")],
}


def flawed(r):
    """Wrong algorithms in place of the right ones are refuted, in universes that do not vary."""
    if r.total or r.prop not in FLAWS:
        return r
    if r.prop == "C15":
        us = universes.key_inputs("flaws", 3, 2, 40, 20)
    elif r.prop in ("C16", "C17"):
        us = universes.conv_inputs("flaws", 2, 200, 200, 200, 1)
    elif r.prop == "C23":
        us = universes.typed("flaws", 20, 2, 4)
    elif r.prop == "C26":
        us = universes.keyed("flaws", 30, 4, 1)
    else:
        us = universes.make("flaws", 12, 4, 2, salt="f", big=True)
        if r.prop != "C07":
            us += universes.make("flaws", 10, 4, 1, 1, salt="g")
        us = universes.with_requests(us, "flaws", 5)
        for u in us:
            u["hide"] = 0
    uf = r.write("flaws.json", us)
    for module, old, new, inv in FLAWS[r.prop]:
        r.write(new + ".cfg", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT %s <- %s\n%s" % (
            old, new, "INVARIANT %s\n" % inv if inv else ""))
        # 14: an operation has another outcome than the map
        r.tlc(module, cfg=r.path(new), out=new + ".out", refuted=12 if inv else 14,
              env={"UNIVERSES": uf, "INPUTS": uf, "WHICH": r.prop, "EMIT": 0, "RESET": "all",
                   "AGAIN": 0, "DESIGN": new})
    return r


def c_values(prop):
    def run():
        r = map_check(prop, value_sets(q(40, 150), q(20, 60), q(10, 40)), q(1500, 15000))
        return flawed(traced(scaled(r), q(120, 800))).finish(True)
    return run


def c_mixed(prop):
    def run():
        r = map_check(prop, value_sets(q(20, 80), q(10, 30), q(5, 20)) + hash_sets(q(30, 120)),
                      q(1500, 15000))
        return flawed(traced(scaled(r), q(120, 800))).finish(True)
    return run


def c14():
    r = map_check("C14", value_sets(q(20, 80), q(10, 30), q(5, 20)) + hash_sets(q(30, 120)),
                  q(3000, 30000))
    h = r.harness("lockstep", q(1500, 15000), 120)
    r.traces += h["counts"].get("lockstep_episodes", 0)
    return scaled(r).finish(True)


def c_subset(prop):
    def run():
        r = Run(prop)
        us = universes.make(SEED, q(16, 60), 4, 2, salt="s") + \
            universes.make(SEED, q(10, 30), 4, 1, 1, salt="t") + \
            universes.make(SEED, q(6, 20), 5, 1, salt="w", curated=False) + \
            universes.ladder(SEED, 1) + \
            universes.surrounded(SEED, q(8, 30), 2, 1, most=20) + \
            universes.surrounded(SEED, q(6, 30), 2, 1, 1, most=20)
        uf = r.write("universes.json", universes.with_requests(us, SEED, 5))
        out = r.tlc("SubsetMC", env={"UNIVERSES": uf, "EMIT": 1, "RESET": "all",
                                      "AGAIN": int(prop == "C24")})
        if prop == "C10":
            refutes(r, "SubsetMC", 12, UNIVERSES=uf, EMIT=0, RESET="root", AGAIN=0)
        h = r.harness("subset", uf, out, env={"VH_SHARE": q(4, 1)})
        r.traces += h["counts"].get("extractions_replayed", 0) + h["counts"].get("batches_replayed", 0)
        scaled(r)
        return flawed(r if prop == "C24" else traced(r, q(120, 800))).finish(True)
    return run


def c07():
    r = Run("C07")
    us = universes.make(SEED, q(24, 100), 4, 2, salt="hide", big=True) + \
        universes.make(SEED, q(10, 40), 5, 1, salt="hide2", big=True) + \
        universes.ladder(SEED, 1) + \
        universes.surrounded(SEED, q(12, 40), 2, 1, most=20)
    uf = r.write("universes.json", us)
    out = r.tlc("HideMC", env={"UNIVERSES": uf, "EMIT": 1})
    h = r.harness("hide", uf, out, env={"VH_WALKS": q(2000, 20000), "VH_WALK_LEN": 60})
    r.traces += h["counts"].get("transitions_replayed", 0) + h["counts"].get("walks", 0)
    return flawed(traced(scaled(r), q(120, 800))).finish(True)


def c_handles(prop):
    def run():
        r = Run(prop)
        us = universes.make(SEED, q(5, 16), 3, 2, salt="hnd", big=True) + \
            universes.make(SEED, q(5, 12), 3, 1, 1, salt="hnd2", big=True) + \
            universes.surrounded(SEED, q(3, 10), 2, 2, most=12) + \
            universes.surrounded(SEED, q(3, 10), 2, 1, 1, most=12)
        uf = r.write("universes.json", us)
        out = r.tlc("HandleMC", env={"UNIVERSES": uf, "EMIT": 1, "DESIGN": "own", "SNAP": 0})
        u2 = r.write("universes2.json", universes.make(SEED, q(4, 10), 3, 1, salt="hnd3", big=True) +
                     q([], us[:3] + us[-3:]))
        r.tlc("HandleMC", env={"UNIVERSES": u2, "EMIT": 0, "DESIGN": "own", "SNAP": 1}, out="snap.out")
        refutes(r, "HandleMC", 12, UNIVERSES=u2, EMIT=0, DESIGN="shared", SNAP=0)
        refutes(r, "HandleMC", 12, UNIVERSES=u2, EMIT=0, DESIGN="lazy", SNAP=0)
        h = r.harness("handles", uf, out, env={"VH_WALKS": q(20000, 200000), "VH_WALK_LEN": 40,
                                               "VH_LEN": 3, "VH_SHARE": q(12, 1)})
        r.traces += h["counts"].get("sequences_replayed", 0) + h["counts"].get("walks", 0)
        return traced(scaled(r), q(120, 800)).finish(True)
    return run


def c15():
    r = Run("C15")
    f = r.write("inputs.json", universes.key_inputs(SEED, 4, q(2, 3), q(150, 600), q(60, 160)))
    out = r.tlc("NibMC", env={"INPUTS": f})
    for release in (False, True):
        h = r.harness("keyops", out, release=release)
        r.traces += h["counts"].get("operations_replayed", 0)
        r.validate(q(300, 2000), 60, module="NibTrace", cmd="keyrecord", release=release)
    return flawed(r).finish(True)


def c_conv(prop):
    def run():
        r = Run(prop)
        f = r.write("inputs.json", universes.conv_inputs(SEED, q(4, 5), q(2000, 8000), q(4000, 20000),
                                                         q(3000, 12000), 2))
        out = r.tlc("ConvMC", env={"INPUTS": f, "WHICH": prop})
        for release in (False, True):
            h = r.harness("keyconv", out, release=release)
            r.traces += h["counts"].get("conversions_replayed", 0)
        return flawed(r).finish(True)
    return run


def c19():
    r = Run("C19")
    f = r.write("cases.json", universes.conc(SEED, True, q(300, 3000), q(60, 400), 4))
    out = r.tlc("ConcMC", env={"CASES": f, "DESIGN": "own", "EMIT": 1})
    f2 = r.write("live.json", universes.conc(SEED + 1, False, q(60, 300), q(10, 40), 3))
    r.tlc("ConcMC", cfg="ConcLive", env={"CASES": f2, "DESIGN": "own", "EMIT": 0}, out="live.out")
    for design, code in (("shared", 12), ("inplace", 12), ("upgrade", 11), ("reread", 11), ("compare", 11)):
        refutes(r, "ConcMC", code, CASES=f2, DESIGN=design, EMIT=0)
    h = r.harness("conc", f, out, env={"VH_REPS": q(400, 3000)})
    r.traces += h["counts"].get("concurrent_runs", 0)
    h = r.harness("concalone", q(150, 1500), 150)
    r.traces += h["counts"].get("concurrent_episodes", 0)
    r.validate(q(40, 200), 60, cmd="concrecord")
    return r.finish(True)


def c20():
    r = Run("C20")
    us = universes.make(SEED, q(32, 120), 3, 2, salt="d", big=True) + \
        universes.make(SEED, q(30, 100), 3, 1, 1, salt="e") + \
        universes.make(SEED, q(10, 40), 5, 1, salt="f", curated=False) + \
        universes.ladder(SEED, 1) + \
        universes.surrounded(SEED, q(10, 40), 3, 1) + universes.surrounded(SEED, q(8, 40), 2, 1, 1)
    for u in us:
        u["hide"] = 1 if len(u["keys"]) == 3 and "rest" not in u else 0
    uf = r.write("universes.json", us)
    out = r.tlc("DebugMC", env={"UNIVERSES": uf, "WHICH": "C20"})
    r.traces += r.harness("diffs", out)["counts"].get("pairs_replayed", 0)
    return flawed(traced(scaled(r), q(120, 800))).finish(True)


def c21():
    r = Run("C21")
    us = universes.make(SEED, q(40, 120), 4, 2, salt="p", big=True) + \
        universes.make(SEED, q(20, 60), 5, 1, 1, salt="q") + \
        universes.ladder(SEED, 1) + universes.surrounded(SEED, q(16, 60), 2, 1) + \
        universes.surrounded(SEED, q(16, 60), 2, 1, 1)
    uf = r.write("universes.json", us)
    out = r.tlc("DebugMC", env={"UNIVERSES": uf, "WHICH": "C21"})
    r.traces += r.harness("paths", out)["counts"].get("queries_replayed", 0)
    return flawed(traced(scaled(r), q(120, 800))).finish(True)


def c22():
    r = Run("C22")
    us = universes.make(SEED, q(40, 120), 4, 2, salt="st", big=True) + \
        universes.make(SEED, q(20, 60), 5, 1, 1, salt="su", curated=False) + \
        universes.ladder(SEED, 1) + universes.surrounded(SEED, q(8, 40), 2, 1) + \
        universes.surrounded(SEED, q(8, 40), 2, 1, 1)
    uf = r.write("universes.json", us)
    out = r.tlc("DebugMC", env={"UNIVERSES": uf, "WHICH": "C22"})
    r.traces += r.harness("stats", out)["counts"].get("pairs_replayed", 0)
    return flawed(traced(scaled(r), q(120, 800))).finish(True)


def c23():
    r = Run("C23")
    uf = r.write("universes.json", universes.typed(SEED, q(60, 300), 3, 5))
    out = r.tlc("ValueMC", env={"UNIVERSES": uf})
    for release in (False, True):
        h = r.harness("values", uf, out, release=release)
        r.traces += h["counts"].get("writes_replayed", 0) + h["counts"].get("conversions_replayed", 0)
    return flawed(r).finish(True)


def c25():
    r = Run("C25")
    for release in (False, True):
        r.validate(q(800, 4000), 60, module="OrderTrace", cmd="orderrecord", release=release,
                   env={"VERIF_SEED": SEED + release})
    return r.finish(True)


def c26():
    r = Run("C26")
    uf = r.write("universes.json", universes.keyed(SEED, q(150, 800), 5, 2))
    out = r.tlc("KeyedMC", env={"UNIVERSES": uf})
    for release in (False, True):
        h = r.harness("keyed", uf, out, release=release)
        r.traces += h["counts"].get("steps_replayed", 0)
    return flawed(r).finish(True)


CHECKS = {
    "C01": c_values("C01"), "C02": c_mixed("C02"), "C03": c_mixed("C03"), "C04": c_mixed("C04"),
    "C05": c_handles("C05"), "C06": c_handles("C06"),
    "C07": c07, "C08": c_subset("C08"), "C09": c_subset("C09"), "C10": c_subset("C10"),
    "C11": c_mixed("C11"), "C12": c_mixed("C12"), "C13": c_mixed("C13"), "C14": c14,
    "C15": c15, "C16": c_conv("C16"), "C17": c_conv("C17"), "C18": c_mixed("C18"),
    "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23,
    "C24": c_subset("C24"), "C25": c25, "C26": c26,
}


def main():
    prop = sys.argv[1]
    try:
        code = CHECKS[prop]()
    except Exception as e:
        if isinstance(e, ToolError):
            log("check error:", e)
        else:
            traceback.print_exc()
        # what was found before stands
        code = Run.last.finish() if Run.last and Run.last.total else 2
    sys.stdout.flush()
    sys.exit(code)


main()
