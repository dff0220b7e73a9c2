#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the scenarios present."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
src = "".join(open(os.path.join(H, "scenarios", f)).read() for f in os.listdir(os.path.join(H, "scenarios")) if f.endswith(".py"))
have = set(re.findall(r'@scenario\("(C\d\d)"', src))
NOTE = ("Every path of the package's current source within the stated bounds (evidence: scenarios.*.bounds) is executed on symbolic "
        "inputs; assertions are decided for all values by normal form or z3, and a violation is reported only after it replays on the "
        "unmodified package. Trusted: the interpreter semantics in /verif/engine (cross-checked by concrete runs), the reference in "
        "scenarios/spec.py, and the contracts for hash, KDF, AES, curve arithmetic, NFC and the random source.")
m = dict(version=1, setup_cmd="true",
         checks=[dict(property=p["id"], quick_cmd=f"python3-vt run.py {p['id']} quick", thorough_cmd=f"python3-vt run.py {p['id']} thorough",
                      technique="symbolic execution of the Python source, assertions decided by SMT (z3)", level="other", level_note=NOTE)
                 for p in props if p["id"] in have],
         not_applicable=[dict(property=p["id"], reason="check under construction") for p in props if p["id"] not in have])
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), len(m["not_applicable"]))
