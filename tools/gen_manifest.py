"""Write MANIFEST.json from the table of properties and the checks that exist."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from absint import props
NA = {
    "C34": "quantifies over the wall clock of the platform loop under arbitrary load: no source-level argument bounds it; the virtual-time part is decided by C20, C25, C26 and C28.",
    "C35": "quantifies over the heap of the running process; the operators buffer without bound by design (a mailbox per observer), so there is no structural bound to check.",
}
LEVEL_NOTE = ("Whole-path abstract interpretation of the current source under the most general client (opaque elements, uninterpreted user "
              "functions, every order of source events, observer progress, disposal and loop interleavings within the configured bounds). "
              "Closed components hold for histories of any length; the others up to the depth and path bounds in the evidence. Trusts the "
              "summaries of asyncio and the expression library.")
ps = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in ps:
    i = p["id"]
    if i in props.PROPS:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --thorough",
                           evidence_file=f"evidence/{i}.json",
                           technique="static analysis: abstract interpretation of the source (worklist over canonical abstract heaps) against a reference transducer",
                           level="other", level_note=LEVEL_NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check yet")))
json.dump(dict(version=1, setup_cmd="python3 -m compileall -q absint check.py || true", checks=checks, not_applicable=na,
               notes="No hooks: the checks read /repo's source only and never import or run it."), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
