#!/usr/bin/env python3
"""tools/mkseed.py SPEC.py...: build and confirm planted bugs (seeded/<id>/) in a scratch copy of /repo.

A spec file defines SEEDS = [dict(id=, property=, edits=[(file, old, new[, count])], demo=python source, needs=, breaks=)].
Each is kept only if: the patch applies to HEAD, all baseline tests still pass, demo exits 0 without and nonzero with the patch."""
import json
import os
import shutil
import subprocess
import sys

SC = "/tmp/seedrepo"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or json.load(open("/opt/vp/BASELINE.json")).get("tests") or [])


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def tests_ok():
    env = dict(os.environ, PYTHONPATH=SC, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    p = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--disable-warnings", "--timeout=300"], cwd=SC, env=env)
    w = sh(["/opt/venv/bin/python", "-c", "import pycaption; print(pycaption.__file__)"], cwd=SC, env=env).stdout
    assert w.startswith(SC), w
    return p.returncode == 0, p.stdout[-800:]


def demo(d):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    return sh(["bash", os.path.join(d, "demo.sh")], cwd=SC, env=env, timeout=300)


def main():
    shutil.rmtree(SC, ignore_errors=True)
    sh("git clone -q /repo %s" % SC)
    bad = 0
    only = set(os.environ.get("ONLY", "").split(",")) - {""}
    for f in sys.argv[1:]:
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        for s in ns["SEEDS"]:
            if only and s["id"] not in only:
                continue
            d = os.path.join(HERE, "seeded", s["id"])
            sh("git checkout -q -- . && git clean -qfd", cwd=SC)
            ok, why = True, ""
            for e in s["edits"]:
                p = os.path.join(SC, e[0])
                t = open(p).read()
                want = e[3] if len(e) > 3 else 1
                if t.count(e[1]) != want:
                    ok, why = False, "edit anchor found %d times in %s: %r" % (t.count(e[1]), e[0], e[1][:60])
                    break
                open(p, "w").write(t.replace(e[1], e[2]))
            if ok:
                diff = sh("git diff", cwd=SC).stdout
                os.makedirs(d, exist_ok=True)
                open(os.path.join(d, "patch.diff"), "w").write(diff)
                open(os.path.join(d, "demo.py"), "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n" + s["demo"].lstrip("\n"))
                open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
                json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                          open(os.path.join(d, "meta.json"), "w"), indent=1)
                w = demo(d)
                t_ok, out = tests_ok()
                sh("git checkout -q -- .", cwd=SC)
                c = demo(d)
                if w.returncode == 0:
                    ok, why = False, "demo passes with the change"
                elif c.returncode != 0:
                    ok, why = False, "demo fails without the change: " + c.stderr[-600:] + c.stdout[-300:]
                elif not t_ok:
                    ok, why = False, "tests fail with the change: " + out
            if not ok:
                bad += 1
                shutil.rmtree(d, ignore_errors=True)
            print("%-6s %s %s" % ("kept" if ok else "REJECT", s["id"], why), flush=True)
    shutil.rmtree(SC, ignore_errors=True)
    sys.exit(bad)


main()
