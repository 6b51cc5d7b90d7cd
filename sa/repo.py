"""Loading and name resolution of the analysed package.  Nothing of it is imported or run."""
import ast
import os
import builtins as _b

REPO = os.environ.get("VERIF_REPO", "/repo")


class AnalysisBroken(Exception):
    """An anchor of the analysis is gone: the check can give no verdict."""


class ClassInfo:
    def __init__(self, module, node, name, frame=None):
        self.module, self.node, self.name, self.frame = module, node, name, frame
        self.members = {}      # name -> FunctionDef | expr node (class level assignment)
        self.ann = []          # ordered annotated names (dataclass fields)
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if st.name in self.members and any(
                    isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter")
                    for d in st.decorator_list
                ):
                    kind = [d.attr for d in st.decorator_list if isinstance(d, ast.Attribute)][0]
                    self.members[st.name + "." + kind] = st
                else:
                    self.members[st.name] = st
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.ann.append((st.target.id, st.annotation, st.value))
                if st.value is not None:
                    self.members[st.target.id] = st.value
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.members[t.id] = st.value
        self.decorators = node.decorator_list

    @property
    def qual(self):
        return self.module.name + "." + self.name

    def __repr__(self):
        return "<class %s>" % self.qual

    def is_dataclass(self):
        for d in self.decorators:
            t = d.func if isinstance(d, ast.Call) else d
            n = t.id if isinstance(t, ast.Name) else getattr(t, "attr", "")
            if n == "dataclass":
                return True
        return False


class Module:
    def __init__(self, repo, name, path, src=None):
        self.repo, self.name, self.path = repo, name, path
        if src is None:
            with open(path, encoding="utf-8") as f:
                src = f.read()
        self.src = src
        self.tree = ast.parse(self.src, path)
        self.defs = {}     # name -> ('func', node) | ('class', ClassInfo) | ('import', dotted, attr) | ('expr', node)
        self._scan(self.tree.body)

    def _scan(self, body):
        pkg = self.name if self.path.endswith("__init__.py") else self.name.rpartition(".")[0]
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.defs[st.name] = ("func", st)
            elif isinstance(st, ast.ClassDef):
                self.defs[st.name] = ("class", ClassInfo(self, st, st.name))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.defs[a.asname] = ("import", a.name, None)
                    else:
                        top = a.name.split(".")[0]
                        self.defs[top] = ("import", top, None)
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = pkg.split(".")
                    parts = parts[: len(parts) - (st.level - 1)]
                    base = ".".join(parts + ([st.module] if st.module else []))
                for a in st.names:
                    self.defs[a.asname or a.name] = ("import", base, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ("expr", st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    self.defs[st.target.id] = ("expr", st.value)
            elif isinstance(st, ast.Try):
                # `try: import torch / except ImportError: torch = None`: the name exists;
                # the import is what the analysis assumes to be possible
                before = dict(self.defs)
                for h in st.handlers:
                    self._scan(h.body)
                alt = {k: v for k, v in self.defs.items() if before.get(k) is not v}
                self._scan(st.body)
                for k, v in alt.items():
                    if self.defs[k] is not v:
                        self.defs[k] = ("alt", [self.defs[k], v])
            elif isinstance(st, (ast.If, ast.With)):
                self._scan(st.body)
                if isinstance(st, ast.If):
                    for k in getattr(st, "orelse", []):
                        self._scan([k])


class Repo:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        base = os.path.join(self.root, "hyperstate")
        if not os.path.isdir(base):
            raise AnalysisBroken("package directory %s not found" % base)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py") or f.startswith("test_") or f == "conftest.py":
                    continue
                p = os.path.join(d, f)
                name = os.path.relpath(p, self.root)[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                try:
                    self.modules[name] = Module(self, name, p)
                except SyntaxError as e:
                    raise AnalysisBroken("%s does not parse: %s" % (p, e))
        self._functions = None

    def add_source(self, name, src):
        """A client module of the package, written by a check (analysed together with the package)."""
        self.modules[name] = Module(self, name, "<%s>" % name, src)
        self._functions = None

    def resolve(self, dotted, attr=None, seen=()):
        """-> ('func', Module, node) | ('class', ClassInfo) | ('module', Module) |
        ('expr', Module, node) | ('ext', dotted)"""
        if attr is None:
            if dotted in self.modules:
                return ("module", self.modules[dotted])
            if "." in dotted:
                b, _, a = dotted.rpartition(".")
                r = self.resolve(b)
                if r[0] == "module":
                    return self.resolve(b, a)
            return ("ext", dotted)
        if dotted in self.modules:
            m = self.modules[dotted]
            if attr in m.defs:
                d = m.defs[attr]
                if (dotted, attr) in seen:
                    return ("ext", dotted + "." + attr)
                if d[0] == "func":
                    return ("func", m, d[1])
                if d[0] == "class":
                    return ("class", d[1])
                if d[0] == "expr":
                    return ("expr", m, d[1], attr)
                return self.resolve(d[1], d[2], seen + ((dotted, attr),))
            sub = dotted + "." + attr
            if sub in self.modules:
                return ("module", self.modules[sub])
            return ("missing", sub)
        return ("ext", dotted + "." + attr)

    def find_func(self, qual):
        """'hyperstate.serde.asdict' or 'hyperstate.hyperstate.StateManager.step'."""
        parts = qual.split(".")
        for i in range(len(parts), 0, -1):
            mod = ".".join(parts[:i])
            if mod in self.modules:
                rest = parts[i:]
                if not rest:
                    break
                r = self.resolve(mod, rest[0])
                if len(rest) == 1:
                    return r
                if r[0] == "class" and len(rest) == 2:
                    c = r[1]
                    if rest[1] in c.members:
                        return ("method", c, c.members[rest[1]])
                break
        raise AnalysisBroken("anchor %s not found" % qual)

    def need(self, qual, kind=None):
        r = self.find_func(qual)
        if r[0] in ("ext", "missing"):
            raise AnalysisBroken("anchor %s not found" % qual)
        return r

    def all_functions(self):
        if self._functions is None:
            out = []
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                        out.append((m, n))
            self._functions = out
        return self._functions


def mro(repo, ci, engine=None):
    """Linearisation good enough for this package (depth first, duplicates dropped from the left)."""
    out = []

    def go(c):
        out.append(c)
        if isinstance(c, ClassInfo):
            for b in c.node.bases:
                go(base_of(repo, c, b))

    go(ci)
    res = []
    for i, c in enumerate(out):
        key = c.qual if isinstance(c, ClassInfo) else c
        if not any((x.qual if isinstance(x, ClassInfo) else x) == key for x in out[i + 1:]):
            res.append(c)
    return res


def base_of(repo, ci, node):
    while isinstance(node, ast.Subscript):
        node = node.value
    d = dotted_name(node)
    if d is None:
        return "?"
    head, *rest = d.split(".")
    m = ci.module
    if head in m.defs:
        r = m.defs[head]
        if r[0] == "class":
            cur = ("class", r[1])
        elif r[0] == "import":
            cur = repo.resolve(r[1], r[2])
        else:
            return d
    elif hasattr(_b, head):
        cur = ("ext", "builtins." + head)
    else:
        return d
    for a in rest:
        if cur[0] == "module":
            cur = repo.resolve(cur[1].name, a)
        elif cur[0] == "ext":
            cur = ("ext", cur[1] + "." + a)
        else:
            return d
    if cur[0] == "class":
        return cur[1]
    if cur[0] == "ext":
        return cur[1]
    return d


def dotted_name(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted_name(n.value)
        return None if b is None else b + "." + n.attr
    return None
