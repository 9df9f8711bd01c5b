"""Program model: every module of the product parsed from source and resolved.

Nothing of the analysed code is ever imported or executed; everything below works
on the syntax trees of /repo's current working tree.
"""
import ast
import os

PKG = "zquantum.core"
SRC = "src/python"


class AnalysisBroken(Exception):
    """An anchor a rule depends on is gone: the check can give no verdict."""


class FuncInfo:
    def __init__(self, qualname, module, node, cls=None):
        self.qualname = qualname
        self.module = module
        self.node = node
        self.cls = cls
        self.name = node.name if not isinstance(node, ast.Lambda) else "<lambda>"
        self.decorators = [_dotted(d) for d in getattr(node, "decorator_list", [])]
        self.is_property = any(
            d in ("property", "abc.abstractproperty", "abstractproperty",
                  "functools.cached_property", "cached_property")
            for d in self.decorators
        )
        self.is_setter = any(d and d.endswith(".setter") for d in self.decorators)
        self.is_static = "staticmethod" in self.decorators
        self.is_class = "classmethod" in self.decorators
        self.is_abstract = any(
            d and d.split(".")[-1] in ("abstractmethod", "abstractproperty")
            for d in self.decorators
        )
        self.is_overload = any(
            d and d.split(".")[-1] == "overload" for d in self.decorators
        )
        self._is_gen = None

    @property
    def is_generator(self):
        if self._is_gen is None:
            self._is_gen = (not isinstance(self.node, ast.Lambda)) and any(
                isinstance(n, (ast.Yield, ast.YieldFrom))
                for n in walk_own(self.node)
            )
        return self._is_gen

    @property
    def file(self):
        return self.module.relpath

    def params(self):
        """[(name, annotation, default, kind)] kind in pos, kwonly, vararg, kwarg."""
        a = self.node.args
        out = []
        pos = list(a.posonlyargs) + list(a.args)
        nd = len(a.defaults)
        for i, p in enumerate(pos):
            j = i - (len(pos) - nd)
            out.append((p.arg, p.annotation, a.defaults[j] if j >= 0 else None, "pos"))
        if a.vararg:
            out.append((a.vararg.arg, a.vararg.annotation, None, "vararg"))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            out.append((p.arg, p.annotation, d, "kwonly"))
        if a.kwarg:
            out.append((a.kwarg.arg, a.kwarg.annotation, None, "kwarg"))
        return out

    def __repr__(self):
        return f"<func {self.qualname}>"


class ClassInfo:
    def __init__(self, qualname, module, node):
        self.qualname = qualname
        self.module = module
        self.node = node
        self.name = node.name
        self.methods = {}  # name -> FuncInfo (getter for properties)
        self.setters = {}
        self.attrs = {}  # class level assignments name -> expr
        self.annotations = {}  # name -> ann expr, in order
        self.decorators = [_dotted(d) for d in node.decorator_list]
        self.is_dataclass = any(
            d and d.split(".")[-1] == "dataclass" for d in self.decorators
        )
        self.frozen = any(
            isinstance(d, ast.Call)
            and any(
                k.arg == "frozen" and isinstance(k.value, ast.Constant) and k.value.value
                for k in d.keywords
            )
            for d in node.decorator_list
        )
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(f"{qualname}.{st.name}", module, st, self)
                if f.is_setter:
                    self.setters[st.name] = f
                elif f.is_overload and st.name in self.methods:
                    continue
                else:
                    self.methods[st.name] = f
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.annotations[st.target.id] = st.annotation
                if st.value is not None:
                    self.attrs[st.target.id] = st.value
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
        self.bases = []  # filled by Program

    @property
    def file(self):
        return self.module.relpath

    def __repr__(self):
        return f"<class {self.qualname}>"


class Module:
    def __init__(self, name, path, relpath):
        self.name = name
        self.path = path
        self.relpath = relpath
        with open(path, encoding="utf-8") as fh:
            self.source = fh.read()
        self.tree = ast.parse(self.source, filename=path)
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.bindings = {}  # name -> entity or ("import", dotted) / ("const", expr)
        self.stars = []
        self.funcs = {}
        self.classes = {}


def _dotted(node):
    if isinstance(node, ast.Call):
        node = node.func
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return ".".join(reversed(parts))
    return None


dotted = _dotted


def walk_own(fn):
    """Walk the nodes of a function without entering nested functions/classes."""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def is_test_file(rel):
    parts = rel.split(os.sep)
    base = parts[-1]
    return (
        "tests" in parts
        or base.endswith("_test.py")
        or base.startswith("test_")
        or base == "conftest.py"
    )


class Program:
    def __init__(self, repo="/repo"):
        self.repo = repo
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self.test_modules = []
        root = os.path.join(repo, SRC)
        if not os.path.isdir(os.path.join(root, "zquantum", "core")):
            raise AnalysisBroken("source tree src/python/zquantum/core not found")
        for base, rootpkg in ((root, None), (os.path.join(repo, "steps"), "steps")):
            for d, dirs, files in os.walk(base):
                dirs[:] = sorted(x for x in dirs if x not in ("__pycache__",)
                                 and not x.endswith(".egg-info"))
                for f in sorted(files):
                    if not f.endswith(".py"):
                        continue
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, repo)
                    if is_test_file(rel):
                        self.test_modules.append(rel)
                        continue
                    mod = os.path.relpath(p, base)[:-3].replace(os.sep, ".")
                    if rootpkg:
                        mod = rootpkg + "." + mod
                    if mod.endswith(".__init__"):
                        mod = mod[: -len(".__init__")]
                    try:
                        self.modules[mod] = Module(mod, p, rel)
                    except SyntaxError as e:
                        raise AnalysisBroken(f"{rel}: syntax error {e}")
        for m in self.modules.values():
            self._index(m)
        for m in self.modules.values():
            self._stars(m)
        for c in list(self.classes.values()):
            c.bases = [self._base(c, b) for b in c.node.bases]
        self._dispatch = None
        self._subs = None

    # ---------------------------------------------------------------- indexing
    def _index(self, m):
        def visit(stmts):
            for st in stmts:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = FuncInfo(f"{m.name}.{st.name}", m, st)
                    # several `def _` registrations may share a name
                    q = f.qualname
                    i = 2
                    while q in self.funcs:
                        q = f"{f.qualname}#{i}"
                        i += 1
                    f.qualname = q
                    self.funcs[q] = f
                    m.funcs[q] = f
                    m.bindings[st.name] = f
                elif isinstance(st, ast.ClassDef):
                    c = ClassInfo(f"{m.name}.{st.name}", m, st)
                    self.classes[c.qualname] = c
                    m.classes[st.name] = c
                    m.bindings[st.name] = c
                    for f in list(c.methods.values()) + list(c.setters.values()):
                        q = f.qualname + (".setter" if f.is_setter else "")
                        f.qualname = q
                        self.funcs[q] = f
                        m.funcs[q] = f
                elif isinstance(st, ast.Import):
                    for a in st.names:
                        if a.asname:
                            m.bindings[a.asname] = ("import", a.name)
                        else:
                            m.bindings[a.name.split(".")[0]] = (
                                "import", a.name.split(".")[0])
                elif isinstance(st, ast.ImportFrom):
                    base = self._from_base(m, st)
                    for a in st.names:
                        if a.name == "*":
                            m.stars.append(base)
                        else:
                            m.bindings[a.asname or a.name] = (
                                "import", f"{base}.{a.name}")
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                m.bindings[n.id] = (
                                    "const", st.value if n is t else None)
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    m.bindings[st.target.id] = ("const", st.value)
                elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                    m.bindings[st.target.id] = ("const", None)
                elif isinstance(st, (ast.If, ast.For, ast.While)):
                    if isinstance(st, ast.For):
                        for n in ast.walk(st.target):
                            if isinstance(n, ast.Name):
                                m.bindings[n.id] = ("const", None)
                    visit(st.body)
                    visit(st.orelse)
                elif isinstance(st, ast.Try):
                    visit(st.body)
                    for h in st.handlers:
                        visit(h.body)
                    visit(st.orelse)
                    visit(st.finalbody)
                elif isinstance(st, ast.With):
                    visit(st.body)

        visit(m.tree.body)

    def _from_base(self, m, st):
        if st.level == 0:
            return st.module or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        if st.level > 1:
            parts = parts[: len(parts) - (st.level - 1)]
        return ".".join(parts + ([st.module] if st.module else []))

    def _stars(self, m):
        for s in m.stars:
            src = self.modules.get(s)
            if src is None:
                continue
            for n, b in src.bindings.items():
                if not n.startswith("_"):
                    m.bindings.setdefault(n, ("import", f"{s}.{n}"))

    # -------------------------------------------------------------- resolution
    def resolve_dotted(self, name, _seen=None):
        """Entity for an absolute dotted name."""
        _seen = _seen or set()
        if name in _seen:
            return ("ext", name)
        _seen.add(name)
        if name in self.modules:
            return ("module", name)
        if "." in name:
            head, tail = name.rsplit(".", 1)
            e = self.resolve_dotted(head, _seen)
            return self.member(e, tail, _seen)
        return ("ext", name)

    def member(self, e, attr, _seen=None):
        if isinstance(e, tuple) and e[0] == "module":
            m = self.modules[e[1]]
            b = m.bindings.get(attr)
            sub = f"{e[1]}.{attr}"
            if b is None:
                if sub in self.modules:
                    return ("module", sub)
                if any(s.startswith(e[1] + ".") for s in ()):  # pragma: no cover
                    pass
                return ("missing", sub)
            return self._binding(m, attr, b, _seen)
        if isinstance(e, ClassInfo):
            f = self.find_method(e, attr)
            if f is not None:
                return f
            return ("classattr", e, attr)
        if isinstance(e, tuple) and e[0] == "ext":
            # namespace package parents of repo modules
            full = f"{e[1]}.{attr}"
            if full in self.modules:
                return ("module", full)
            return ("ext", full)
        if isinstance(e, tuple) and e[0] == "missing":
            full = f"{e[1]}.{attr}"
            if full in self.modules:
                return ("module", full)
            return ("missing", full)
        return ("ext", f"?.{attr}")

    def _binding(self, m, name, b, _seen=None):
        if isinstance(b, (FuncInfo, ClassInfo)):
            return b
        if b[0] == "import":
            return self.resolve_dotted(b[1], _seen)
        return ("modconst", m.name, name, b[1])

    def lookup(self, m, name):
        """Resolve a bare global name used in module m (None: not bound)."""
        b = m.bindings.get(name)
        if b is None:
            return None
        return self._binding(m, name, b)

    def resolve_expr(self, m, node):
        """Entity of a Name/Attribute chain evaluated at module scope."""
        if isinstance(node, ast.Name):
            return self.lookup(m, node.id)
        if isinstance(node, ast.Attribute):
            e = self.resolve_expr(m, node.value)
            if e is None:
                return None
            return self.member(e, node.attr)
        return None

    def _base(self, c, b):
        if isinstance(b, ast.Subscript):
            b = b.value
        e = self.resolve_expr(c.module, b)
        if isinstance(e, ClassInfo):
            return e
        if isinstance(e, tuple) and e[0] == "ext":
            return ("ext", e[1])
        return ("ext", _dotted(b) or "?")

    def mro(self, c):
        out, todo = [], [c]
        # left-to-right depth first without duplicates is enough for this code base
        def rec(k):
            if k in out:
                return
            out.append(k)
            for b in k.bases:
                if isinstance(b, ClassInfo):
                    rec(b)
        rec(c)
        # move common bases after all their subclasses (C3-like)
        res = []
        for i, k in enumerate(out):
            res.append(k)
        changed = True
        while changed:
            changed = False
            for i in range(len(res)):
                for j in range(i + 1, len(res)):
                    if res[i] in self.ancestors(res[j]):
                        k = res.pop(i)
                        res.insert(j, k)
                        changed = True
                        break
                if changed:
                    break
        return res

    def ancestors(self, c):
        out = set()
        todo = [b for b in c.bases if isinstance(b, ClassInfo)]
        while todo:
            k = todo.pop()
            if k in out:
                continue
            out.add(k)
            todo.extend(b for b in k.bases if isinstance(b, ClassInfo))
        return out

    def ext_bases(self, c):
        out = set()
        for k in [c] + list(self.ancestors(c)):
            for b in k.bases:
                if not isinstance(b, ClassInfo):
                    out.add(b[1].split(".")[-1])
        return out

    def is_subclass(self, c, d):
        return c is d or d in self.ancestors(c)

    def subclasses(self, c):
        if self._subs is None:
            self._subs = {}
            for k in self.classes.values():
                for a in self.ancestors(k):
                    self._subs.setdefault(a, []).append(k)
        return self._subs.get(c, [])

    def find_method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
            if name in k.attrs:
                # alias like __call__ = Gate.__call__ or __rmul__ = __mul__
                e = k.attrs[name]
                if isinstance(e, ast.Name) and e.id in k.methods:
                    return k.methods[e.id]
                r = self.resolve_expr(k.module, e) if isinstance(
                    e, (ast.Attribute, ast.Name)) else None
                if isinstance(r, FuncInfo):
                    return r
        return None

    def find_setter(self, c, name):
        for k in self.mro(c):
            if name in k.setters:
                return k.setters[name]
        return None

    def is_protocol(self, c):
        return any(
            not isinstance(b, ClassInfo) and b[1].split(".")[-1] == "Protocol"
            for b in c.bases
        )

    # --------------------------------------------------------- singledispatch
    def dispatch(self):
        """{generic FuncInfo: [(type expr/entity or None, FuncInfo)]}"""
        if self._dispatch is not None:
            return self._dispatch
        out = {}
        for f in self.funcs.values():
            if f.cls is None and any(
                d and d.split(".")[-1] == "singledispatch" for d in f.decorators
            ):
                out[f] = []
        for f in self.funcs.values():
            if f.cls is not None or not hasattr(f.node, "decorator_list"):
                continue
            for d in f.node.decorator_list:
                call = d.func if isinstance(d, ast.Call) else d
                if isinstance(call, ast.Attribute) and call.attr == "register":
                    g = self.resolve_expr(f.module, call.value)
                    if g in out:
                        if isinstance(d, ast.Call) and d.args:
                            t = d.args[0]
                        else:
                            ps = f.params()
                            t = ps[0][1] if ps else None
                        ent = self.resolve_expr(f.module, t) if t is not None else None
                        if ent is None and isinstance(t, ast.Name):
                            ent = ("builtin", t.id)
                        out[g].append((ent, f))
        self._dispatch = out
        return out

    # ---------------------------------------------------------------- getters
    def func(self, q):
        """Function by qualified name, following re-exports; raises when gone."""
        name = q if q.startswith(("zquantum.", "steps.")) else f"{PKG}.{q}"
        f = self.funcs.get(name)
        if f is not None:
            return f
        e = self.resolve_dotted(name)
        if isinstance(e, FuncInfo):
            return e
        raise AnalysisBroken(f"anchor function {name} not found")

    def cls(self, q):
        name = q if q.startswith(("zquantum.", "steps.")) else f"{PKG}.{q}"
        c = self.classes.get(name)
        if c is not None:
            return c
        e = self.resolve_dotted(name)
        if isinstance(e, ClassInfo):
            return e
        raise AnalysisBroken(f"anchor class {name} not found")

    def has(self, q):
        try:
            self.func(q)
            return True
        except AnalysisBroken:
            return False
