"""addfix.py ID PROPERTY COMMIT what...: record a repaired defect in known_findings.json."""
import json, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
i, prop, commit, what = sys.argv[1], sys.argv[2], sys.argv[3], " ".join(sys.argv[4:])
assert all(f["id"] != i for f in d["findings"])
d["findings"].append(dict(id=i, property=prop, status="fixed", commit=commit, what=f"fixed: property={prop} {commit} {what}"))
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
