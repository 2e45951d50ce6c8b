#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json
MC = "exhaustive bounded enumeration of executions of the real code (stateless explicit-state exploration) against an independent reference model"
NOTES = {
    "J01": ("model_checking", "All JSON texts of the grammar up to a number of tokens with gap deviations, all string bodies up to 5/6 fragments, every Unicode character and \\u escape, sizes around every round number, against a reference scanner. Trusts the reference scanner (12 lines); says nothing about larger combinations outside the alphabet."),
    "J02": ("model_checking", "Every chunking of short texts x every sequence of buffer sizes (0 included), all short texts x sizes, size sweeps; the in-memory minifier is the reference (its own correctness is J01)."),
    "J03": ("fault_enumeration", "Every placement of 1-3 errors (8 kinds, temporary or not) in every chunking of short texts, every sequence of 1-4 interesting bytes, all byte pairs; faults at every byte of a longer text and around round sizes."),
    "O01": ("fault_enumeration", "Every sequence of writer answers up to length 5/7 and a failure at every call, on inputs which print every kind of token."),
}
import sys, os
sys.path.insert(0, os.path.dirname(__file__))
try:
    from manifest_more import MORE
    NOTES.update(MORE)
except ImportError:
    pass
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES:
        level, note = NOTES[i]
        tech = MC
        if level == "fault_enumeration":
            tech = "exhaustive enumeration of environment answers and faults (bounded deviations) driving the real code, against a reference model"
        checks.append({"property": i, "quick_cmd": f"./run.sh check {i} quick", "thorough_cmd": f"./run.sh check {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": "the check is not built yet"})
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check drives the public API or the command line. run.sh rebuilds the explorer and the CLI from /repo's working tree. Known findings: known_findings.txt."}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
