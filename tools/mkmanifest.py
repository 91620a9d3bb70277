"""Regenerate MANIFEST.json from levels.json (claimed properties) and not_claimed.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = json.load(open(H + "/levels.json"))
N = json.load(open(H + "/not_claimed.json"))
m = {"version": 1, "setup_cmd": "python3-vt selftest.py --quick",
     "checks": [{"property": p, "quick_cmd": "python3-vt check.py %s --tier quick" % p,
                 "thorough_cmd": "python3-vt check.py %s --tier thorough" % p,
                 "technique": L[p]["technique"], "level": L[p]["level"], "level_note": L[p]["note"]} for p in sorted(L)],
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(N.items()) if p not in L]}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
