#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Decides one property: the deductive leg (contracts on the functions extracted
from /repo's current source, discharged by Verus or Kani) and the concrete leg
(the same property evaluated on the real code, which searches and replays
counterexamples and stands in, bounded, for what is not under contract).
"""
import json, os, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common, concrete, deductive


def known():
    """(property, text) of findings that are listed as not repaired"""
    out = []
    p = os.path.join(common.VERIF, "known-findings.txt")
    for l in open(p):
        l = l.strip()
        if l.startswith("open: property="):
            pr, rest = l[len("open: property="):].split(" ", 1)
            out.append((pr, rest))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    ded = {}
    deductive.FOUND = threading.Event()

    def d():
        try:
            ded.update(deductive.run(prop, tier))
        except Exception as e:  # a fault of the machinery is never an alarm
            import traceback
            ded.update({"units": [], "failed": [], "undecided": ["the deductive leg broke down: %r %s" % (e, traceback.format_exc()[-1500:])]})

    th = threading.Thread(target=d)
    th.start()
    secs = 60 if tier == "quick" else 420
    try:
        con = concrete.run_concrete(prop, tier, seed, secs)
    except Exception as e:
        con = {"status": "error", "message": repr(e)}
    deductive.FOUND.violation = con["status"] == "violation"
    deductive.FOUND.set()
    th.join()

    rdir = os.path.join(common.VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, prop + ".json")
    if os.path.exists(replay):
        os.remove(replay)
    viol = None
    if con["status"] == "violation":
        v = con["violation"]
        json.dump({"property": prop, "kind": "failing input on the real code", "seed": seed, "tier": tier, "case": v,
                   "reproduce": "%s %s --seed %d --tier %s --family %s %s" % (
                       os.path.join(common.BUILD, "harness/release/vh"), prop, seed, tier, json.dumps(v["family"]), v["idx"]),
                   "failed_obligations": ded.get("failed", [])}, open(replay, "w"), indent=1)
        viol = "VIOLATION property=%s replay=%s" % (prop, replay)
        print("input:   %s" % v["input"])
        print("failure: %s" % v["message"])
        for f in ded.get("failed", []):
            print("failed obligation: %s: %s" % (f["function"], f["message"]))
    elif ded.get("failed"):
        json.dump({"property": prop, "kind": "obligation not discharged, no failing input found", "seed": seed, "tier": tier,
                   "failed_obligations": ded["failed"]}, open(replay, "w"), indent=1)
        viol = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)
        for f in ded["failed"]:
            print("failed obligation: %s: %s" % (f["function"], f["message"]))

    for pr, txt in known():
        if pr == prop:
            print("KNOWN-FINDING: property=%s %s" % (pr, txt))
    for u in ded.get("undecided", []):
        print("UNDECIDED (not an alarm; the bounded leg stands in): %s" % u)
    if con["status"] in ("unbuilt", "error"):
        print("concrete leg: %s: %s" % (con["status"], con["message"]))

    cov = deductive.coverage(prop, ded)
    if con["status"] in ("pass", "violation"):
        cov.update({
            "evaluations": con["evaluations"],
            "distinct_nontrivial": con["distinct_nontrivial"],
            "rule": "bounded leg (never counted as proved): generated cases per family, made from seed, family and index; "
                    "distinct descriptions are counted, cases the harness marks as trivial are not",
            "samples": con["samples"],
            "bounded_cases": con["cases"],
            "bounded_families": con["families"],
            "bounded_truncated": con["truncated"],
        })
    ev = {"property": prop, "tier": tier, "seed": seed, "level": deductive.level(prop), "coverage": cov,
          "assumptions": deductive.assumptions(prop, ded), "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    os.makedirs(os.path.join(common.VERIF, "evidence"), exist_ok=True)
    p = os.path.join(common.VERIF, "evidence", prop + ".json")
    json.dump(ev, open(p + ".tmp", "w"), indent=1)
    os.replace(p + ".tmp", p)
    print("%s: %d of %d obligations discharged (%s), %s cases on the real code, %.1f s" % (
        prop, cov.get("discharged", 0), cov.get("obligations", 0), tier, con.get("cases", "no"), time.time() - t0))
    if viol:
        print(viol)
        sys.exit(1)
    sys.exit(0)


main()
