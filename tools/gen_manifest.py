"""Writes /verif/MANIFEST.json from the contracts and oracles present."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {"P29": "Absence of races over all thread interleavings is outside contract-based deductive verification with the verifiers installed (no permission logic for C++11 atomics, std::async and Eigen); the sequential contracts of each worker body are checked under P09/P12/P13/P20/P30 and thread-count independence is sampled there."}
NOTE = {}
exec(open(os.path.join(V, "tools", "levels.py")).read()) if os.path.exists(os.path.join(V, "tools", "levels.py")) else None
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    has = os.path.exists(os.path.join(V, "contracts", i.lower() + ".py"))
    c = dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
             technique="contract-based deductive verification: verification conditions generated from the current source, discharged by z3/cvc5; the same contracts run on the real code for replay and as bounded stand-in" if has
             else "runtime-checked contracts on the real compiled code (bounded stand-in for contract-based verification)",
             level="proof" if has else "other",
             level_note=NOTE.get(i, "see DESIGN.md") if has else NOTE.get(i, "bounded: contract postconditions evaluated on the real code over generated inputs; nothing counted as proved"))
    checks.append(c)
m = dict(version=1, setup_cmd="/opt/venv/bin/python harness/realirs.py", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes="check.py exits 0 (held), 1 (VIOLATION line), 2 (undecided). Defects repaired in /repo are listed in known_findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
