"""Writes MANIFEST.json from the check registry and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
REASON = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
TECH = "TLA+ specification, TLC-generated behaviours replayed on the code, recorded traces validated by TLC (%s)"
NOTE = ("Every call recorded from the real code is checked by TLC against the actions of the trace specification, for all "
        "behaviours TLC generated from the generator specification at small dimensions; numbers are compared at the "
        "tolerances the specification states (2^-24 fixed point). Trusted: TLC, its Java overrides for the linear "
        "algebra (themselves checked against the TLA+ definitions), the drivers' logging.")
m = dict(version=1,
         setup_cmd="python3 run.py --selftest",
         hooks=dict(guard="EVOMPS_VERIF_HOOKS", enable="no hooks are needed: the drivers use the public API only", source_commits=[]),
         checks=[], not_applicable=[])
for p in props:
    if p in CHECKS:
        specs = sorted(set([g["module"] for part in CHECKS[p]["parts"] for g in part["gen"]] + [part["trace"] for part in CHECKS[p]["parts"]]))
        m["checks"].append(dict(property=p, quick_cmd="python3 run.py %s --tier quick" % p,
                                thorough_cmd="python3 run.py %s --tier thorough" % p,
                                technique=TECH % ", ".join(specs), level="model_checking",
                                level_note=NOTE + (" " + CHECKS[p]["note"] if "note" in CHECKS[p] else "")))
    else:
        m["not_applicable"].append(dict(property=p, reason=REASON.get(p, "check not built yet")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
