"""Writes MANIFEST.json from properties.jsonl (run from /verif)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIM = sys.argv[1].split(",") if len(sys.argv) > 1 else None
TECH = {
    "default": "TLA+ specification (TLC) validates traces of the real library: every call, callback, reduction and observation",
}
NOTE = ("Bounded: every explored history of the real code is judged by TLC against the TLA+ map semantics; histories are seeded random and TLC-enumerated small scopes over 9 hash/flag word "
        "combinations with adversarial hash tables. Trusts TLC, the recording harness and the Rust toolchain; code paths no history reaches are not decided.")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
ids = [p["id"] for p in props if CLAIM is None or p["id"] in CLAIM]
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough", "evidence_file": f"evidence/{i}.json",
                 "technique": TECH.get(i, TECH["default"]), "level": "model_checking", "level_note": NOTE} for i in ids],
     "not_applicable": [{"property": p["id"], "reason": "check under construction"} for p in props if p["id"] not in ids],
     "notes": "All findings are repaired by fix: commits in /repo; see known-findings.txt and DESIGN.md. No hooks: the public API exposes everything the specification talks about."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
