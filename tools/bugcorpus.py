#!/usr/bin/env python3
"""Development aid: realistic one- or two-site bugs, to see which the checks report.
Nothing is executed: each edit is made on a scratch copy of the sources and the property's
check is run on that copy.  usage: bugcorpus.py [PROPERTY ...]"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "src/python/zquantum/core/"
O = P + "openfermion/"
BUGS = []


def B(prop, note, *edits):
    BUGS.append((prop, note, [((f if f.startswith("steps") else P + f), a, b) for f, a, b in edits]))


def run(job):
    n, (prop, note, edits) = job
    d = tempfile.mkdtemp(prefix="bug")
    try:
        for x in ("src", "steps"):
            shutil.copytree(os.path.join("/repo", x), os.path.join(d, x), ignore=shutil.ignore_patterns("__pycache__"))
        for f, a, b in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            pat = "\n".join(re.escape(x) for x in a.strip("\n").split("\n") if x.strip())
            pat = pat.replace("\n", r"\n(?:[ \t]*\n)*")
            if len(re.findall(pat, s)) < 1:
                return n, prop, note, f"EDIT FAILS in {f}: {a[:40]!r}"
            s = re.sub(pat, lambda m: b.strip("\n"), s, count=1)
            open(p, "w").write(s)
            compile(s, p, "exec")
        r = subprocess.run([sys.executable, os.path.join(V, "check.py"), prop], capture_output=True, text=True,
                           env=dict(os.environ, SA_REPO=d, SA_EVIDENCE=os.path.join(d, "ev")), timeout=900)
        if r.returncode == 1:
            return n, prop, note, "caught"
        ev = os.path.join(d, "ev", prop + ".json")
        und = ""
        if os.path.exists(ev):
            import json
            und = " || ".join(json.load(open(ev))["coverage"].get("undecided_list", []))[:420]
        return n, prop, note, f"MISSED rc={r.returncode} {und}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugdefs.py")).read())
if __name__ == "__main__":
    pick = sys.argv[1:]
    jobs = [(n, b) for n, b in enumerate(BUGS) if not pick or b[0] in pick or str(n) in pick]
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(run, jobs))
    for r in res:
        if r[3] != "caught":
            print(*r)
    print(sum(r[3] == "caught" for r in res), "caught of", len(res))
