#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json (run: python3 tools/mkprops.py)."""
import json, os, glob, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = {}
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None, note="", hook=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: anchors["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    PROPS.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors, "_note": note})
def N(id, reason): NA[id] = reason

exec(open(os.path.join(ROOT, "tools", "props.py")).read())

claimed = set()
for f in glob.glob(os.path.join(ROOT, "contracts", "**", "*.go"), recursive=True):
    for m in re.finditer(r"^//@ contract((?: C\d+)+)", open(f).read(), re.M):
        claimed |= set(m.group(1).split())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as out:
    for p in PROPS:
        q = {k: v for k, v in p.items() if not k.startswith("_")}
        out.write(json.dumps(q) + "\n")
TRUST = ("Deductive proof by govc (symbolic weakest preconditions over the go/ssa form of /repo's current source, "
 "obligations discharged by z3 and cvc5, no bound on inputs or iterations unless the contract states one). Trusted: go/ssa, govc's Go semantics "
 "and its models of library functions (listed per run in the evidence), the solvers. ")
checks = []
for p in PROPS:
    if p["id"] in NA: continue
    assert p["id"] in claimed, p["id"]
    checks.append({"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick", "thorough_cmd": f"bash run.sh {p['id']} thorough",
      "evidence_file": f"evidence/{p['id']}.json", "technique": "contract-based deductive verification (govc: VCs from go/ssa of the real code, z3/cvc5)",
      "level": "proof", "level_note": TRUST + p["_note"]})
man = {"version": 1, "setup_cmd": "bash run.sh setup", "checks": checks,
  "not_applicable": [{"property": i, "reason": NA[i]} for i in NA],
  "notes": "No hooks in /repo: contracts live in /verif/contracts and are overlaid into the packages at analysis time."}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "claimed,", len(NA), "not applicable")
