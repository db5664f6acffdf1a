"""writes MANIFEST.json from the registry of properties"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(here)
sys.path.insert(0, V)
import props
props.load("P08")
from props.reg import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
nap = os.path.join(here, "not_applicable.json")
if os.path.exists(nap):
    NA = json.load(open(nap))
checks, na = [], []
for i in ids:
    if i in PROPS and i not in NA:
        p = PROPS[i]
        checks.append(dict(property=i, quick_cmd=f"./check.py {i}", thorough_cmd=f"./check.py {i}", technique="contract-based deductive verification of the compiled MIR (weakest-precondition style VCs, SMT)", level=p["level"],
            level_note=p.get("note") or "Every path of the functions' MIR, extracted from /repo on each run, is proved to satisfy the contract for all inputs; trusted: MIR extraction, the VC generator, SMT solvers, and the library models listed in the evidence."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
