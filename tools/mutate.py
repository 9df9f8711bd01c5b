#!/usr/bin/env python3
"""Development aid: apply a textual edit to a scratch copy of /repo and run checks on it.

usage: mutate.py FILE OLD NEW ID...   (OLD must occur exactly once)
"""
import os, shutil, subprocess, sys, tempfile
f, a, b, *ids = sys.argv[1:]
d = tempfile.mkdtemp(prefix="mut")
for x in ("src", "steps", "tests"):
    shutil.copytree("/repo/" + x, d + "/" + x, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", "*.hdf5"))
p = os.path.join(d, f)
if not os.path.exists(p):
    p = os.path.join(d, "src/python/zquantum/core", f)
s = open(p).read()
a = a.encode().decode("unicode_escape"); b = b.encode().decode("unicode_escape")
assert s.count(a) == 1, s.count(a)
open(p, "w").write(s.replace(a, b))
compile(s.replace(a, b), p, "exec")
for i in ids:
    r = subprocess.run([sys.executable, "/verif/check.py", i], env={**os.environ, "SA_REPO": d}, capture_output=True, text=True)
    print(i, "rc", r.returncode, r.stdout[-700:], r.stderr[-500:])
shutil.rmtree(d)
