"""writes /verif/MANIFEST.json from the properties with a check (props/cNN.py)"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {}
p = os.path.join(ROOT, "tools", "notes.json")
NOTES = json.load(open(p)) if os.path.exists(p) else {}
checks, na = [], []
ORACLE = "".join(open(os.path.join(ROOT, "oracle", f)).read() for f in os.listdir(os.path.join(ROOT, "oracle")) if f.endswith(".py"))
for d in props:
    pid = d["id"]
    if os.path.exists(os.path.join(ROOT, "props", pid.lower() + ".py")) and f'@register("{pid}")' in ORACLE:
        note = NOTES.get(pid, "")
        checks.append({
            "property": pid,
            "quick_cmd": f"python3-vt /verif/check.py {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough python3-vt /verif/check.py {pid}",
            "evidence_file": f"evidence/{pid}.json",
            "technique": "contract-based deductive verification: contracts over the real source, verification conditions from "
                         "its symbolic execution, discharged by an algebraic prover and z3",
            "level": "proof",
            "level_note": (note + " " if note else "") +
            "All inputs, no bound. Trusted: dv/ (VC generation from the source text, numpy semantics, algebraic prover), z3. "
            "Floats are treated as reals unless stated; every run cross-checks against the real code by sampling (not counted as proof).",
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, "check under construction")})
man = {"version": 1, "setup_cmd": "python3-vt -c \"import z3, numpy\"", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo. Engine in dv/, contracts in props/, numeric replay oracles in oracle/. See DESIGN.md."}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
