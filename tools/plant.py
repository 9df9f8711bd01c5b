#!/usr/bin/env python3
"""Plant a bug: plant.py SPEC.py
SPEC defines: id, property, needs, breaks, edits=[(file, old, new)], demo (python source).
Verifies in a scratch copy of /repo, then stores /verif/seeded/<id>/."""
import glob, json, os, re, shutil, subprocess, sys, tempfile
PY = "/opt/venv-pypy/bin/python"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main(spec, notest=False):
    ns = {}
    exec(open(spec).read(), ns)
    d = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    try:
        return work(ns, d + "/repo", notest)
    finally:
        shutil.rmtree(d)


def work(ns, r, notest):
    sh(f"cp -a /repo {r}")
    for f, a, b in ns["edits"]:
        p = f"{r}/{f}" if f.startswith("steps") else f"{r}/src/python/zquantum/core/{f}"
        s = open(p).read()
        if s.count(a) != 1:
            print(ns["id"], "EDIT MISMATCH", f, s.count(a)); return 1
        open(p, "w").write(s.replace(a, b))
    diff = sh(f"git -C {r} diff").stdout
    dd = r + "_demo"
    os.makedirs(dd)
    open(dd + "/demo.py", "w").write(ns["demo"])
    open(dd + "/demo.sh", "w").write(
        '#!/bin/bash\nPYTHONPATH="$PWD:$PWD/src/python" timeout 250 /opt/venv-pypy/bin/python '
        '"$(dirname "$0")/demo.py"\n')
    a = sh(f"bash {dd}/demo.sh", cwd="/repo")
    b = sh(f"bash {dd}/demo.sh", cwd=r)
    if a.returncode != 0 or b.returncode == 0:
        print(ns["id"], "DEMO BAD", a.returncode, b.returncode, a.stderr[-800:], b.stderr[-300:]); return 1
    if not notest:
        t = open("/opt/vp/test.sh").read().replace("/repo", r).replace(
            "mktemp -d /opt/vp/run.XXXXXX", f"mktemp -d {r}_run.XXXXXX").replace(
            'PYTHONPATH="$root"', f'PYTHONPATH="$root:{r}/src/python"')
        open(r + "_test.sh", "w").write(t)
        x = sh(f"bash {r}_test.sh {r}_out.json")
        o = set(json.load(open(r + "_out.json"))["passed"])
        miss = [q for q in json.load(open("/opt/vp/BASELINE.json"))["stable"] if q not in o]
        if miss:
            print(ns["id"], "TESTS CATCH IT", miss[:5]); return 1
    out = f"/verif/seeded/{ns['id']}"
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(out + "/patch.diff", "w").write(diff)
    shutil.copy(dd + "/demo.py", out); shutil.copy(dd + "/demo.sh", out)
    json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]},
              open(out + "/meta.json", "w"), indent=1)
    e = {**os.environ, "SA_REPO": r}
    c = sh(f"python3 /verif/check.py {ns['property']}", env=e)
    print(ns["id"], "PLANTED; check", ns["property"], "exit", c.returncode,
          c.stdout[:300].replace("\n", " | "))
    return 0


if __name__ == "__main__":
    for s in sys.argv[1:]:
        if not s.startswith("--"):
            main(s, "--notest" in sys.argv)
