"""Writes MANIFEST.json from the check modules present and properties.jsonl."""
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = {
    "C01": "differential monitor against an extended-precision Hermite reference, plus ASan/UBSan runs",
    "C02": "rejection monitor with state re-observation under ASan/UBSan",
    "C03": "differential monitor against an extended-precision perceptron reference, single vs batch",
    "C04": "differential monitor against an extended-precision Jacobian reference, single vs batch",
    "C05": "differential monitor against an extended-precision sum of terms on all four paths",
    "C06": "differential monitor against extended-precision partial derivatives on all three paths",
    "C07": "enumeration monitor: exactly-once, completeness and order checked against independent definitions",
    "C08": "differential monitor against an extended-precision formula, symmetry and cutoff monitors",
    "C09": "accumulator conservation monitor over random neighbour lists, under ASan",
    "C10": "offline checker over recorded call histories, each event replayed on a fresh object",
    "C11": "ThreadSanitizer stress with per-thread results compared to solo runs",
    "C12": "ASan+UBSan+LSan and valgrind memcheck over random call histories",
    "C28": "before/after memory snapshots around every array handed to the bindings, under ASan",
}
checks, na = [], []
NA = json.load(open(V + "/tools/not_applicable.json"))
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/checks/{i.lower()}.py"):
        m = importlib.import_module("checks." + i.lower())
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique="runtime monitoring: " + getattr(m, "TECHNIQUE", TECH.get(i, "")),
                           level=m.LEVEL, level_note=m.RULE))
    else:
        na.append(dict(property=i, reason=NA[i]))
man = dict(version=1, setup_cmd="python3 check.py --warm", checks=checks, not_applicable=na,
           notes="No hooks in /repo are needed: the monitors observe the public C++ and Python interfaces and the sanitizer runtimes. Builds are made from /repo's "
                 "working tree into /verif/.build (git-ignored). Unavailable third-party parts (sphericart, Kokkos, LAMMPS, torch) are replaced by stand-ins under standins/.")
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
