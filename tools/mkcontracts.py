"""Write CONTRACTS.md: every contract, the functions it is on, what it ensures and (from the last evidence) its obligations."""
import json, os, sys, importlib
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from pyvc import env
env.setup() if hasattr(env, "setup") else None
from pyvc import runner
P = {}
for line in open(H + "/properties.jsonl"):
    d = json.loads(line)
    P[d["id"]] = d["title"]
for p in sorted(P):
    importlib.import_module("contracts." + p.lower())
out = ["# Contracts", "", "Generated by `python3-vt tools/mkcontracts.py` from `contracts/` and the last evidence files.",
       "`n/m`: obligations discharged / generated on the unchanged tree.", ""]
for p in sorted(P):
    ev = {}
    try:
        c = json.load(open(H + "/evidence/%s.json" % p))["coverage"]
        ev = {x["contract"]: x for x in c["contracts"]}
    except OSError:
        pass
    out += ["## %s  %s" % (p, P[p]), ""]
    for name, c in runner.CONTRACTS.get(p, {}).items():
        x = ev.get(name, {})
        doc = " ".join((c.fn.__doc__ or "").split())
        out.append("- **%s** — %s" % (name, ", ".join("`%s`" % t.replace("pycaption.", "", 1) for t in c.targets)))
        out.append("  - ensures: " + "; ".join(c.expects) if c.expects else "  - ensures: (see obligations)")
        if doc:
            out.append("  - domain: " + doc)
        if c.bound:
            out.append("  - **bounded**: " + c.bound)
        if x:
            out.append("  - %s/%s obligations" % (x["discharged"], x["obligations"]))
    out.append("")
open(H + "/CONTRACTS.md", "w").write("\n".join(out))
