"""Writes MANIFEST.json from harness/check.py's table of checks."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "harness"))
import check
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
T = "TLA+ specification; TLC model checking and TLC trace validation of recorded API calls"
RND = (" The binding to the code is by recordings: assurance is bounded by the domains, call "
       "sequences and random draws generated; it trusts TLC, the recorder and the stated rounding.")
WALK = ("TLC exhaustively checks the design model of walks (MCWalk) in small domains; recorded "
        "walks of the real code are judged step by step by TLC against the same rules.")
NOTES = {
    "C04": "TLC checks the laws of the weights over all small neighbourhoods (MCRouting); observed "
           "frequencies of the real code must lie within six standard deviations of the specified "
           "probabilities.",
    "C07": WALK + " Call sequences come from TLC's exploration of Lifecycle.",
    "C11": WALK + " Call sequences come from TLC's exploration of Lifecycle.",
    "C12": WALK + " Call sequences come from TLC's exploration of Lifecycle; twins with equal seeds "
           "are compared.",
    "C13": "TLC checks the derivation rules over all small cells (MCFields); recorded fields of "
           "every combination of given and missing inputs are compared cell by cell by TLC.",
    "C14": "TLC checks all interleavings of worker processes (Parallel); results of real process "
           "pools are judged by TLC against the routing rules.",
    "C23": "TLC checks a walk through changing fields (MCUnsteady); files, figures and walks "
           "recorded from the routines are judged by TLC.",
    "C24": "TLC explores the logger state machine exhaustively and generates all call sequences "
           "up to a length, which are replayed into the real code and judged by TLC.",
}
for _p in ("C15", "C16", "C17", "C19"):
    NOTES[_p] = ("TLC checks the laws of the definitions over all small walks (MCHist); results of "
                 "the real functions on these and random walks are judged exactly by TLC.")
for _p in ("C18", "C20", "C21", "C22"):
    NOTES[_p] = ("TLC checks the laws of the definitions over enumerated small inputs (MCGeo); "
                 "results of the real functions are judged by TLC in integer arithmetic.")
for _p in ("C25", "C26", "C27"):
    NOTES[_p] = ("TLC checks the laws of the definitions over small recordings (MCPlots); the "
                 "artists of the real figures are judged by TLC.")
NOTES["C28"] = ("TLC checks that the tolerant rules agree with the exact ones over all small surroundings "
                "(MCExamples); the domains and walks of the real helpers are judged by TLC.")
NOTE = {p: (T, NOTES.get(p, WALK) + RND) for p in check.FAMILY}
checks = []
for p in props:
    if p in check.FAMILY:
        t, n = NOTE[p]
        checks.append({"property": p, "quick_cmd": "bin/check %s quick" % p,
                       "thorough_cmd": "bin/check %s thorough" % p,
                       "technique": t, "level": "model_checking", "level_note": n})
m = {"version": 1,
     "setup_cmd": "bin/setup",
     "checks": checks,
     "not_applicable": [{"property": p, "reason": "check under construction"}
                        for p in props if p not in check.FAMILY]}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
