#!/usr/bin/env python3
"""Development aid: hand-made behaviour-preserving rewrites (hold-out for quietness), all applied to
one copy of the repository.  usage: refcorpus.py DEST  (then SA_REPO=DEST check.py ...)"""
import os, re, sys
V = os.path.dirname(os.path.abspath(__file__))
P = "src/python/zquantum/core/"
O = "openfermion/"
EDITS = []


def R(f, *edits):
    for a, b in edits:
        EDITS.append((f if f.startswith("steps") else P + f, a, b))


exec(open(os.path.join(V, "refdefs.py")).read())
if __name__ == "__main__":
    d = sys.argv[1]
    for f, a, b in EDITS:
        p = os.path.join(d, f)
        s = open(p).read()
        pat = r"\n(?:[ \t]*\n)*".join(re.escape(x) for x in a.split("\n") if x.strip() or True)
        pat = re.sub(r"(?:\\n\(\?:\[ \\t\]\*\\n\)\*){2,}", lambda m: r"\n(?:[ \t]*\n)*", pat)
        found = re.findall(pat, s)
        if len(found) != 1:
            print("EDIT FAILS", f, len(found), repr(a[:60]))
            continue
        s = re.sub(pat, lambda m: b, s, count=1)
        try:
            compile(s, p, "exec")
        except SyntaxError as e:
            print("SYNTAX", f, repr(a[:50]), e)
            continue
        open(p, "w").write(s)
    print(len(EDITS), "edits")
