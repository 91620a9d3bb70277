"""python -m bounded.run CXX --tier quick --seed 1 --budget 60 --out FILE  (run with the pinned interpreter)"""
import argparse
import importlib
import json
import os
import sys
import traceback
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get("PYCAPTION_REPO", "/repo"), HERE]
import logging
logging.disable(logging.CRITICAL)

from bounded.core import Run


def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop")
    a.add_argument("--tier", default="quick")
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a.add_argument("--budget", type=float, default=60)
    a.add_argument("--out")
    a = a.parse_args()
    try:
        import cssutils
        cssutils.log.setLevel(logging.FATAL)
    except Exception:
        pass
    r = Run(a.prop, a.tier, a.seed, a.budget)
    try:
        m = importlib.import_module("bounded." + a.prop.lower())
        for f in m.CASES:
            if not r.run(f):
                break
    except Exception:
        r.errors.append(traceback.format_exc()[-1500:])
    out = json.dumps(r.result(), default=repr, ensure_ascii=True)
    if a.out:
        with open(a.out, "w") as f:
            f.write(out)
    else:
        d = json.loads(out)
        for v in d["violations"]:
            print("FAIL", v["key"], "x%d" % v["count"], v["what"][:600])
            print("     ", json.dumps(v["data"], ensure_ascii=False)[:700])
        print({k: d[k] for k in ("evaluations", "distinct_nontrivial", "groups", "truncated", "wall_s")})
        for e in d["errors"]:
            print("ERROR", e)


main()
