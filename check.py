#!/usr/bin/env python3-vt
"""check.py CXX [--tier quick|thorough]: prove the contracts of a property, then evaluate its bounded stand-ins.

Exit 0: every obligation the verifier could generate was discharged (what it could not follow is listed in the evidence and
covered by the bounded stand-in) and no bounded evaluation failed.  Exit 1 with a VIOLATION line otherwise."""
import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import threading
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
LEVELS = json.load(open(os.path.join(HERE, "levels.json")))


def bounded(prop, tier, seed, budget, box):
    try:
        if not os.path.exists(os.path.join(HERE, "bounded", prop.lower() + ".py")):
            return
        out = tempfile.NamedTemporaryFile(suffix=".json", delete=False)
        out.close()
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        p = subprocess.run([PY, "-m", "bounded.run", prop, "--tier", tier, "--seed", str(seed), "--budget", str(budget),
                            "--out", out.name], cwd=HERE, env=env, capture_output=True, text=True, timeout=budget * 3 + 240)
        with open(out.name) as f:
            t = f.read()
        os.unlink(out.name)
        box["r"] = json.loads(t) if t else {"errors": [p.stderr[-1500:]]}
    except BaseException as e:
        box["r"] = {"errors": ["bounded stage: %s: %s" % (type(e).__name__, e)]}


def known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return {}
    return {k["key"]: k for k in json.load(open(p))["findings"] if k["property"] == prop and k["status"] == "open"}


def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a.add_argument("--budget", type=float)
    a.add_argument("--no-bounded", action="store_true")
    a = a.parse_args()
    prop, tier = a.prop, a.tier
    t0 = time.time()
    budget = a.budget or (60 if tier == "quick" else 600)
    box = {}
    th = threading.Thread(target=bounded, args=(prop, tier, a.seed, budget, box))
    if not a.no_bounded:
        th.start()

    results, perr = [], None
    try:
        from pyvc import env                                    # noqa: F401
        from pyvc import runner
        if os.path.exists(os.path.join(HERE, "contracts", prop.lower() + ".py")):
            importlib.import_module("contracts." + prop.lower())
            results = runner.run_all(prop, budget=None if tier == "quick" else 600)
    except BaseException:
        perr = traceback.format_exc()[-2000:]
    if not a.no_bounded:
        th.join()
    b = box.get("r", {})

    kf = known(prop)
    violations, found = [], []          # (key, what, data, replayed)
    for r in results:
        for name, o in r["obligations"].items():
            if o["refuted"]:
                ex = [x for x in o["refuted"] if x]
                rep = [x for x in ex if x.get("replayed")]
                key = "obligation:%s/%s" % (r["name"], name)
                violations.append((key, "obligation %r of contract %r is refuted (targets %s)" % (name, r["name"], ", ".join(r["targets"])),
                                   {"contract": r["name"], "obligation": name, "targets": r["targets"],
                                    "counterexample": (rep or ex)[:3]}, bool(rep)))
    for v in b.get("violations", []):
        violations.append((v["key"], v["what"], v["data"], True))

    lines, new = [], []
    for v in violations:
        if v[0] in kf:
            lines.append("KNOWN-FINDING: property=%s %s: %s" % (prop, v[0], kf[v[0]]["what"]))
            found.append(v[0])
        else:
            new.append(v)

    b_obl = b_dis = 0
    contracts, n_obl, n_dis, undec, proved, backends, solver_ms = [], 0, 0, [], [], set(), 0
    for r in results:
        inst = sum(o["instances"] for o in r["obligations"].values())
        dis = sum(o["discharged"] for o in r["obligations"].values())
        if r.get("bound"):
            b_obl += inst
            b_dis += dis
        else:
            n_obl += inst
            n_dis += dis
        solver_ms += r["solver_ms"]
        for o in r["obligations"].values():
            backends |= set(o["backends"])
        ok = not r["undecided"] and inst == dis
        contracts.append({"contract": r["name"], "functions": r["targets"], "paths": r["paths"], "obligations": inst,
                          "discharged": dis, "decided": ok, "wall_s": r["wall_s"], "inlined": r["inlined"],
                          "callee_contracts_used": r["used_contracts"],
                          "names": {k: "%d/%d" % (o["discharged"], o["instances"]) for k, o in r["obligations"].items()},
                          "not_followed": r["undecided"][:6]})
        if r.get("bound"):
            contracts[-1]["bounded_never_counted_as_proved"] = r["bound"]
        if ok:
            proved += [] if r.get("bound") else r["targets"]
        else:
            undec.append(r["name"])
    L = LEVELS.get(prop, {})
    from_trusted = L.get("trusted", [])
    base = ["z3 %s" % _z3v(), "pyvc: VC generator and Python semantics model (/verif/pyvc), cross-checked against CPython by selftest.py",
            "CPython %s and its standard library" % sys.version.split()[0]]
    cov = {"functions_under_contract": sorted({t for r in results for t in r["targets"]}),
           "functions_proved": sorted(set(proved)),
           "contracts": contracts, "obligations": n_obl, "discharged": n_dis, "undecided_contracts": undec,
           "bounded_contract_obligations": b_obl, "bounded_contract_obligations_discharged": b_dis,
           "backends": sorted(backends), "solver_ms": solver_ms,
           "checker_cmd": "python3-vt /verif/check.py %s --tier %s" % (prop, tier), "trusted_base": base + from_trusted,
           "bounded": {k: b.get(k) for k in ("evaluations", "distinct_nontrivial", "rule", "groups", "truncated", "wall_s")},
           "evaluations": b.get("evaluations", 0), "distinct_nontrivial": b.get("distinct_nontrivial", 0),
           "rule": b.get("rule", "") or "no bounded stand-in", "samples": b.get("samples", []),
           "known_findings_seen": found,
           "errors": (b.get("errors") or []) + ([perr] if perr else []),
           "explanation": L.get("note", "")}
    ev = {"property": prop, "tier": tier, "seed": a.seed, "level": L.get("level", "other"), "coverage": cov,
          "assumptions": L.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)

    for e in cov["errors"]:
        print("note: stage error:", e.strip().splitlines()[-1][:300])
    print("%s: %d contracts, %d/%d obligations discharged (and %d/%d of bounded contracts), %d not followed; bounded %s evaluations (%s distinct); %.1f s"
          % (prop, len(results), n_dis, n_obl, b_dis, b_obl, len(undec), b.get("evaluations", 0), b.get("distinct_nontrivial", 0), time.time() - t0))
    for u in contracts:
        if not u["decided"]:
            print("  not decided: %s: %s" % (u["contract"], "; ".join(u["not_followed"])[:300]))
    for l in lines:
        print(l)
    if not new:
        # nothing ran at all: no answer rather than a false "held"
        return 0 if (n_obl or b_obl or b.get("evaluations")) else 2
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    confirmed = [v for v in new if v[3]]
    for k, (key, what, data, rep) in enumerate((confirmed or new)[:5]):
        path = os.path.join(d, "%s-%d.json" % (prop, k))
        with open(path, "w") as f:
            json.dump({"property": prop, "key": key, "what": what, "data": data,
                       "replayed_on_real_code": rep}, f, indent=1, default=repr)
        print("%s: %s" % (key, what[:500]))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if rep else " no-failing-input-found"))
    return 1


def _z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return "?"


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
