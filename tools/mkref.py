#!/usr/bin/env python3
"""Development aid: regenerate the reference models from a reviewed tree (docstrings and
comments dropped).  Run only after reviewing the functions concerned; no check runs this."""
import ast, os, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa.model import is_test_file
R = "/repo"


class Strip(ast.NodeTransformer):
    def visit(self, n):
        self.generic_visit(n)
        b = getattr(n, "body", None)
        if isinstance(b, list) and b and isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
                n.body = b[1:] or ([] if isinstance(n, ast.Module) else [ast.Pass()])
        return n


shutil.rmtree(V + "/ref", ignore_errors=True)
for base in ("src/python/zquantum/core", "steps"):
    for d, dirs, files in os.walk(f"{R}/{base}"):
        for f in files:
            rel = os.path.relpath(os.path.join(d, f), R)
            if not f.endswith(".py") or is_test_file(rel) or "egg-info" in rel:
                continue
            t = Strip().visit(ast.parse(open(f"{R}/{rel}").read()))
            o = f"{V}/ref/{rel}"
            os.makedirs(os.path.dirname(o), exist_ok=True)
            open(o, "w").write(ast.unparse(ast.fix_missing_locations(t)) + "\n")
