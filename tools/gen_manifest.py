#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from specs.py and properties.jsonl.
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import specs
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in specs.SPECS:
        sp = specs.SPECS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
            "technique": (sp["technique"] or "symbolic execution of LLVM IR compiled from /repo, deciding branches, assertions and memory safety with Z3") + "; counterexamples replayed on the real build",
            "level": "model_checking", "level_note": ("Bounded: " + sp["bounds"] + (". Outside: " + sp["outside"] if sp["outside"] else "") + "."
                + (" Trusted: the model of the bindings and of json in harness/pj.py." if sp["technique"] else " Trusted: the models of C++ streams, files, zlib in shim/."))})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "PARTIO_VERIF", "enable": "no hooks are needed: the checks compile /repo's sources unchanged", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": "See DESIGN.md. known_findings.json lists recorded findings and repaired defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
