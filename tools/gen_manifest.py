#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has an entry in suites.PROPS."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import suites
NOTES = {
    "C01": "every word of both registers, every setter and value; judged by TLC against Regs.tla",
    "C10": "every 16-bit word of both functions judged by TLC against minimum-distance decoding",
    "C19": "all integers and all 2^32 floats judged by TLC",
    "C24": "histories recorded alone and in company have to be the same (TLC compares them event by event)",
    "C25": "all checksum words and kinds of errors judged by TLC",
    "C26": "all 65536 addresses and all pairs of names judged by TLC",
    "C21": "every word; random setter histories over the bus",
}
MC = {"C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C20", "C22", "C27", "C28"}
TECH_CONF = "TLA+ specification; TLC judges recordings of the real code against it (conformance checking)"
TECH_MC = ("TLA+ model of driver and camera checked exhaustively with TLC; behaviours generated from it are replayed into "
           "the real code and the recorded traces validated by TLC")
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p not in suites.PROPS:
        na.append({"property": p, "reason": "not claimed yet: the check is still being built"})
        continue
    mc = p in MC
    checks.append({
        "property": p,
        "quick_cmd": "./check %s quick" % p,
        "thorough_cmd": "./check %s thorough" % p,
        "technique": TECH_MC if mc else TECH_CONF,
        "level": "model_checking" if mc else "exploration",
        "level_note": NOTES.get(p, "see DESIGN.md: bounded model exhaustively checked, traces of the code validated against it" if mc
                                else "sampled inputs (seeded) judged by TLC against the specification; see DESIGN.md for the bounds"),
    })
json.dump({"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
