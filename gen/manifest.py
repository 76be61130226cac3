import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOT_YET = {}
TECH = {"C13": "TLA+ specification of the cache's lock algorithm (Cache.tla) refined to CacheAbs.tla with TLC (safety and liveness, all interleavings); its schedules replayed in real threads, and recorded call histories validated by TLC (CacheTrace.tla)",
        "C24": "the TLA+ specification of all other properties, its transitions replayed in, and histories validated from, builds of the library with subsets of its features (TLC)"}
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": TECH.get(p["id"], "TLA+ specification checked with TLC; its transitions replayed in the real library, and histories recorded from the real library validated by TLC"),
                 "level": "model_checking",
                 "level_note": "TLC explores a bounded model of the reflection semantics; conformance of the code is checked on every replayed transition and recorded history, not proved for all inputs"} for p in props if p["id"] not in NOT_YET],
     "not_applicable": [{"property": k, "reason": v} for k, v in NOT_YET.items()]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
