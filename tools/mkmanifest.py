"""Writes MANIFEST.json from the checks present."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
RTN = ("Random histories x random schedules (one seed = one interleaving at memory-access granularity, virtual disk latency, spurious wake-ups) of the real runtime, "
       "plus native runs at production buffer sizes. Trusts the harness scheduler, the recorded history and, for message text, printf; sequential consistency in controlled runs. ")
T = json.load(open(os.path.join(V, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    f = "checks/%s.py" % i.lower()
    if os.path.exists(os.path.join(V, f)):
        t, n = T[i]
        checks.append({"property": i, "quick_cmd": "python3 " + f, "thorough_cmd": "VERIF_TIER=thorough python3 " + f,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "exploration",
                       "level_note": n.replace("@RT", RTN)})
    else:
        na.append({"property": i, "reason": T.get(i + "-na", "check under construction")})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "NANOLOG_VERIF_STAGING_BUFFER_SIZE / NANOLOG_VERIF_OUTPUT_BUFFER_SIZE (preprocessor defines)",
               "enable": "the checks compile /repo/runtime with -DNANOLOG_VERIF_STAGING_BUFFER_SIZE=<n> -DNANOLOG_VERIF_OUTPUT_BUFFER_SIZE=<n>",
               "source_commits": ["850e46c8b9fb2a7f8880697d7730ebf414107c8e"]},
     "checks": checks, "not_applicable": na,
     "notes": "All checks are generated-input search; see DESIGN.md. Repairs made in /repo are listed in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
