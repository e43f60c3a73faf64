"""Writes MANIFEST.json for the properties that have checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vf"))
T = {
    "reader": "TLA+ state machine of the pull reader (spec/Reader.tla): TLC explores all behaviours over small documents, each is replayed on the real reader, and every recorded run is validated as a trace of the machine",
    "broken": "TLA+ trace validation (spec/Reader.tla, X tokens): every truncation point, source failure, malformed construct and division into reads, replayed on the real reader",
}
NOTE = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECK:
        tech, note = CHECK[i]
        checks.append({"property": i, "quick_cmd": "python3 vf/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 vf/check.py " + i,
                       "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3 vf/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Specifications in spec/ (TLA+, TLC); drivers in vf/; the harness crates in harness/ link /repo's crates unmodified (no hooks). DESIGN.md explains; known_findings.txt lists findings and fixes."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
