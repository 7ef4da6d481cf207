"""Writes /verif/MANIFEST.json from the list of finished contract files."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
BOUNDED = {}
exec(open(os.path.join(HERE, "tools", "notes.py")).read())

TECH = "contract-based deductive verification: contracts executed symbolically on the extracted source, every obligation discharged by exact normal forms, z3 and cvc5"
COMMON = ("All obligations are generated from the current source of /repo on every run and are discharged for all inputs "
          "(reals stand for floats, see DESIGN.md). ")

checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    path = os.path.join(HERE, "contracts", p.lower() + ".py")
    if not os.path.exists(path):
        continue
    names = [n.name for n in ast.parse(open(path).read()).body if isinstance(n, ast.FunctionDef)]
    th = [n for n in names if n.startswith("theorem_")]
    bd = [n for n in names if n.startswith("bounded_")]
    level = "exploration" if not th else "other" if bd else "proof"
    note = NOTES.get(p, "")
    if bd:
        note += " Bounded parts, executed and not proved: " + ", ".join(bd) + "."
    c = {"property": p, "quick_cmd": "python3-vt run_check.py %s" % p, "thorough_cmd": "python3-vt run_check.py %s" % p,
         "evidence_file": "evidence/%s.json" % p, "technique": TECH, "level": level, "level_note": (COMMON if th else "") + note}
    if th:
        c["theorems"] = th
    checks.append(c)
out = {"version": 1, "setup_cmd": "python3-vt -c \"import z3, cvc5\"", "checks": checks, "not_applicable": [],
       "notes": "No hooks: the source is read and executed as it is. See DESIGN.md."}
json.dump(out, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
