#!/usr/bin/env python3
"""Development aid: run a check on scratch copies with seeded changes: seed.py [ID...]"""
import json, os, shutil, subprocess, sys, tempfile, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(V + "/seeded/*/meta.json"))
for i in ids:
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    d = tempfile.mkdtemp(prefix="seed")
    for x in ("src", "steps"):
        shutil.copytree("/repo/" + x, d + "/" + x, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", "*.hdf5"))
    a = subprocess.run(["git", "apply", f"{V}/seeded/{i}/patch.diff"], cwd=d, capture_output=True, text=True)
    r = subprocess.run([sys.executable, V + "/check.py", m["property"]], env={**os.environ, "SA_REPO": d}, capture_output=True, text=True)
    print(i, m["property"], "APPLYFAIL" if a.returncode else "", "CAUGHT" if r.returncode == 1 else f"MISSED rc={r.returncode}", r.stdout.split("\n")[0][:150])
    shutil.rmtree(d)
