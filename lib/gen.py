"""Writes properties.jsonl and MANIFEST.json from meta.py and props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from meta import META
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
try:
    from meta import NOT_APPLICABLE as NA
except ImportError:
    pass
META.sort(key=lambda m: m["id"])
with open(V + "/properties.jsonl", "w") as f:
    for m in META:
        assert len(m["title"]) <= 80, m["id"]
        f.write(json.dumps(m) + "\n")
ids = [m["id"] for m in META]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    P = PROPS[i]
    checks.append(dict(property=i, quick_cmd="python3 lib/run.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 lib/run.py %s thorough" % i,
                       technique=P.get("technique", "bounded symbolic execution of the real code (f64 as symbolic reals), SMT (z3, cvc5) decides every assertion, counterexamples replayed on the real f64 code"),
                       level="model_checking", level_note="all values within the bounds: " + P["bounds"] + "; exact real arithmetic (no f64 rounding); rulinalg/num/rand replaced by environment models"))
missing = [i for i in ids if i not in PROPS and i not in NA]
assert not [i for i in PROPS if i not in ids], [i for i in PROPS if i not in ids]
na = [dict(property=i, reason=NA[i]) for i in ids if i not in PROPS and i in NA] + [dict(property=i, reason="no check built yet") for i in missing]
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(dict(version=1, setup_cmd="python3 lib/build.py", checks=checks, not_applicable=na), f, indent=1)
    f.write("\n")
print(len(ids), "properties", len(checks), "checks", "unclaimed:", missing)
