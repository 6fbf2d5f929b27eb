#!/usr/bin/env python3
"""writes MANIFEST.json: properties with a checks/cNN.py are claimed, the others listed as not applicable yet"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C01": "TLC checks the store contract exhaustively for 4 objects on one storage; all short and many random histories are replayed into LooseObjectDB and GitDB with concrete contents of boundary sizes and validated. Contents and longer histories are sampled.",
 "C03": "TLC checks an implementation-shaped model of windowed decompression against the cursor contract for all small compressed layouts; all length-2 and random length-12 read histories are replayed on real streams. Contents are sampled.",
 "C17": "As C01 with memory databases and copying; contents sampled.",
 "C18": "As C01 with redirected streams; contents sampled.",
}
DEFAULT = "Exhaustive within the small constants of the model; implementation bound by replay of generated behaviours and trace validation, sampled beyond."
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "TLA+ specification checked with TLC; generated behaviours replayed into gitdb and recorded traces validated against the specification",
                       "level": "model_checking", "level_note": NOTE.get(i, DEFAULT)})
    else:
        na.append({"property": i, "reason": "specification and conformance check not built yet"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
