"""No code from data.

Effects: every operation that reads data (states, configs, overrides, schemas, upgraded files) is interpreted on documents whose strings, names and numbers are arbitrary; the effect of evaluating or unpickling may only
occur on a path on which the environment variable is known to be set, with one of the two legacy markers in the document, and the path on which it is not set must end in an error.
Who may call: every mention in the package of a function that runs code from data is resolved through the imports; it must be the guarded one, which the interpretation reached, or take constants only, or belong to no function
that the readers can reach."""
import ast
from ..scen import *
from .. import schemas
from .. import tygen
from ..repo import dotted_name
from ..lib import DANGER, DANGER_EXACT, DANGER_OK

R1, R2, R3, R4, R5 = "C18.guarded", "C18.error-if-not-enabled", "C18.data-is-not-run", "C18.who-may-call", "C18.read-if-enabled"
ENV = "UNSAFE_DESERIALIZE_PICKLE"
SRC = '''
from hyperstate import StateManager, Lazy, Serializable
from hyperstate.schema.types import load_schema
''' + schemas.TOOLS + '''

class A(Serializable):
    def __init__(self, v):
        self.v = v

    def serialize(self):
        return self.v

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        return A(state_dict)


@dataclass
class Plain:
    step: int
    a: A


@dataclass
class LazySt(Lazy):
    step: int
    a: A


@dataclass
class Nested(Lazy):
    step: int
    p: Plain


@dataclass
class Many(Lazy):
    step: int
    l: List[A]


@dataclass
class Empty:
    x: int = 1


def read_state(cls, ckdir, name):
    m = StateManager(Empty, cls, no_init, init_path=ckdir)
    s = m.state
    if name == "a":
        return s.a
    if name == "p":
        return s.p.a
    return s.l


def read_file(cls, path, name):
    s = hyperstate.load(cls, path)
    if name == "a":
        return s.a
    if name == "p":
        return s.p.a
    return s.l


def no_init(config, ctx):
    return None


def load(cls, text, overrides):
    return hyperstate.loads(cls, text, overrides=overrides)


def managed(cls, path, overrides):
    m = StateManager(cls, Empty, no_init, init_path=path, overrides=overrides)
    return m.config


def upgrade(path, cls):
    rewrite_config(path, cls)


def schema(path):
    return load_schema(path)
'''
STATES = [("LazySt", "a", lambda v: [("step", C(1)), ("a", v)]), ("Plain", "a", lambda v: [("step", C(1)), ("a", v)]),
          ("Nested", "p", lambda v: [("step", C(1)), ("p", struct("Plain", [("step", C(2)), ("a", v)]))]),
          ("Many", "l", lambda v: [("step", C(1)), ("l", Seq("list", [v]))])]
MARKS = ["<BLOB>", "<blob:pickle>", "<blob:msgpack>", None]


def allowed(run, n):
    """is the variable known to be set? (facts established before the n-th fact)"""
    for f, v in run.fact_log[:n]:
        if v and any(is_c(x) and x.a[0] == ENV for x in subterms(f)):
            return True
    return False


def dangers(run):
    return [e for e in run.events if e.op == "danger"]


def hook(run):
    """remember how much was known at each danger"""
    orig = run.event

    def event(op, *a, **k):
        if op == "danger":
            run.tags[("known", len(run.events))] = len(run.fact_log)
        return orig(op, *a, **k)
    run.event = event


def visited(run, out):
    for e in dangers(run):
        out.add((str(e.args[0].a[0]), e.loc))


def run(ck):
    ts = [t for t in tygen.types(2) + tygen.UNIONS]
    client_src(ck, "ce", tygen.module(ts, SRC))
    jobs = []
    for cls, name, mk in STATES:
        for mark in MARKS:
            for how in ("manager", "load"):
                jobs.append(lambda ck, a=(cls, name, mk, mark, how): state(ck, *a))
                if mark in MARKS[:2]:
                    jobs.append(lambda ck, a=(cls, name, mk, mark, how): state(ck, *a, enabled=True))
    for i, t in enumerate(ts):
        jobs.append(lambda ck, a=(i, t): config(ck, *a))
    jobs.append(schema)
    ck.map(jobs)
    who(ck)
    ck.need(4, R2)
    ck.need(50, R3)
    ck.need(8, R5)
    ck.need(5, R4)


def state(ck, cls, name, mk, mark, how, enabled=False):
    inst = "%s, %s, %s" % (cls, mark or "other text", how)

    def entry(run):
        hook(run)
        if enabled:
            run.facts[T("in", C(ENV), ext("os.environ"))] = True
            run.fact_log.append((T("in", C(ENV), ext("os.environ")), True))
        d = directory(run, "ckdir")
        if mark:
            v = C(mark)
        else:
            v = run.sym("text", {"str"})
            unlike(run, v, [m for m in MARKS if m])
        run.vfs[under(d, "config.ron")] = document(run, struct("Empty", []), "conf")
        run.vfs[under(d, "state.ron")] = document(run, struct(cls, mk(v)))
        for f in ("a", "state.a.pickle", "state.a.msgpack", "state.p.a.pickle", "state.p.a.msgpack", "state.l_0.pickle", "state.l[0].msgpack"):
            run.vfs[under(d, f)] = run.sym("blob " + f, {"bytes"})
        for f in (("p", "a"), ("l", "0")):
            run.vfs[under(d, *f)] = run.sym("blob", {"bytes"})
        got, err = attempt(lambda: call(run, "ce.read_state", run.lookup("ce." + cls), d, C(name)) if how == "manager" else
                           call(run, "ce.read_file", run.lookup("ce." + cls), T("P", under(d, "state.ron")), C(name)))
        ds = dangers(run)
        if enabled:
            fs = [show(run.pkey(e.args[0])) for e in run.events if e.op == "open" and "state.ron" not in show(run.pkey(e.args[0])) and "config.ron" not in show(run.pkey(e.args[0]))]
            ck.ob(R5, inst, err is None and len(ds) == 1, "with %s set, reading %s" % (ENV, "fails: " + exc_text(run, err) if err is not None else "unpickles %d objects" % len(ds)), loc(err.loc) if err is not None else "hyperstate/lazy.py (load_blob)", ctx(run))
            ck.ob(R5, inst + ", file", len(fs) == 1, "the files read are %s" % fs, "hyperstate/lazy.py (LazyDeserializer)", ctx(run))
            return
        for e in ds:
            n = run.tags.get(("known", run.events.index(e)), 0)
            pick = str(e.args[0].a[0]) in ("pickle.load", "pickle.loads", "pickle.Unpickler")
            ok = pick and mark in MARKS[:2] and allowed(run, n)
            ck.ob(R1, inst, ok, "%s is called %s" % (e.args[0].a[0], "although %s is not known to be set" % ENV if pick and mark in MARKS[:2] else "for data without a legacy marker"), loc(e.loc), ctx(run))
            if ok:
                ck.assume("reached under the guard: %s at %s:%s" % (e.args[0].a[0], e.loc[0], e.loc[1]))
        if mark in MARKS[:2] and not ds:
            ck.ob(R2, inst, err is not None, "the legacy object is not loaded, but there is no error: %s" % (show(run.freeze(got))[:100] if got is not None else None), "hyperstate/lazy.py", ctx(run))
        if mark is None:
            ck.ob(R3, inst, not ds, "data is run", "", ctx(run))
    ck.explore(entry, Opts(faults=False, max_paths=100, models={"msgpack." + x: unpack for x in ("unpack", "unpackb", "load", "loads")}))


def unpack(run, a, k, n):
    """unpacking may fail"""
    if run.choose("malformed blob", 2):
        run.raise_("ValueError", C("malformed"))
    return run.x_msgpack__unpack(a, k, n)


def texts(run, k):
    s = lambda n: run.sym(n, {"str"})
    for r in ("!__name__", "!weak ref"):
        for n in ("k1", "k2"):
            run.facts[T("eq", s(n), C(r))] = False
    run.facts[T("eq", s("k1"), s("k2"))] = False
    return [lambda: s("t"), lambda: Nt(s("name"), Dict()), lambda: Nt(s("name"), mkdict([("a", s("t")), ("b", s("u"))])), lambda: Seq("list", [s("t"), s("u")]),
            lambda: Seq("tuple", [s("t"), s("u")]), lambda: dict2(s), lambda: run.cat([s("t"), C("@"), s("u")]), lambda: C("step: 1@0 2@4")][k]()


def dict2(s):
    d = Dict()
    for k, v in (("k1", "t"), ("k2", "u")):
        d.entries[s(k)] = (s(k), s(v))
    return d


def config(ck, i, t):
    for k in range(8):
        for how in ("file", "override", "upgrade") if k in (0, 1, 6) else ("file",):
            inst = "%s, value %d, %s" % (t, k, how)

            def entry(run):
                hook(run)
                cls = run.lookup("ce.C%d" % i)
                v = texts(run, k)
                if how == "file":
                    f = lambda: call(run, "ce.load", cls, document(run, struct("C%d" % i, [("x", v)])), Seq("list", []))
                elif how == "override":
                    if k == 1:
                        return
                    f = lambda: call(run, "ce.load", cls, document(run, struct("C%d" % i, [])), Seq("list", [run.cat([C("x="), v])]))
                else:
                    f = lambda: call(run, "ce.upgrade", doc_file(run, struct("C%d" % i, [("x", v)]), run.sym("p", {"str"})), cls)
                attempt(f)
                ds = dangers(run)
                ck.ob(R3, inst, not ds, "%s is called" % (ds and ds[0].args[0].a[0]), loc(ds[0].loc) if ds else "", ctx(run))
            ck.explore(entry, Opts(faults=False, max_paths=60))


def schema(ck):
    def entry(run):
        hook(run)
        s = lambda n: run.sym(n, {"str"})
        prim = lambda n: struct("Primitive", [("type", n)])
        f = struct("Field", [("name", s("fname")), ("type", (prim(s("ty")), Nt(s("cls"), mkdict([("type", s("ty"))])), struct("Enum", [("name", s("en")), ("variants", mkdict([("A", s("ev"))]))]))[run.choose("type", 3)]),
                              ("default", s("dflt")), ("has_default", TRUE), ("docstring", s("doc"))])
        top = struct("Struct", [("name", s("sname")), ("fields", mkdict([("f", f)])), ("version", C(0))])
        attempt(lambda: call(run, "ce.schema", doc_file(run, top, s("p")).a[0]))
        ds = dangers(run)
        ck.ob(R3, "schema file", not ds, "%s is called" % (ds and ds[0].args[0].a[0]), loc(ds[0].loc) if ds else "", ctx(run))
    ck.explore(entry, Opts(faults=False, max_paths=200))


# ------------------------------------------------------------------------------------ who may call
READERS = ["load", "loads", "_typed_load", "from_dict", "deserialize", "_load_config", "_load_state", "config", "state", "load_schema", "schema_from_namedtuple", "decode", "__getattribute__", "upgrade_rules", "apply_upgrades",
           "_parse_schedule", "get_value", "step", "load_blob", "_upgrade_config", "_upgrade_schema", "find_latest_checkpoint", "__init__"]


def dangerous(full):
    return full in DANGER_EXACT or full.startswith(DANGER) and full not in DANGER_OK or full in ("builtins.globals",)


class Mentions(ast.NodeVisitor):
    """uses of dangerous functions with the function around them"""
    def __init__(self, module):
        self.m, self.out, self.stack, self.names = module, [], [], [{}]

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.names.append({})
        self.generic_visit(n)
        self.names.pop()
        self.stack.pop()

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Import(self, n):
        for a in n.names:
            self.names[-1][a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]

    def visit_ImportFrom(self, n):
        if not n.level:
            for a in n.names:
                self.names[-1][a.asname or a.name] = "%s.%s" % (n.module, a.name)
                full = "%s.%s" % (n.module, a.name)

    def resolve(self, d):
        head, _, rest = d.partition(".")
        for s in reversed(self.names):
            if head in s:
                return s[head] + ("." + rest if rest else "")
        if head in self.m.defs:
            return None
        import builtins
        return "builtins." + d if hasattr(builtins, head) else None

    def visit_Call(self, n):
        d = dotted_name(n.func)
        full = self.resolve(d) if d else None
        if full and dangerous(full):
            const = bool(n.args) and all(isinstance(a, ast.Constant) for a in n.args) and full not in ("builtins.globals",)
            self.out.append((full, ".".join(self.stack) or "<module>", n.lineno, const))
        for a in list(n.args) + [k.value for k in n.keywords]:
            x = dotted_name(a)
            f2 = self.resolve(x) if x else None
            if f2 and dangerous(f2):
                self.out.append((f2, ".".join(self.stack) or "<module>", n.lineno, False))
        self.generic_visit(n)


def calls_of(repo):
    """function name -> names it mentions (by last component)"""
    g = {}
    for m, f in repo.all_functions():
        if not m.name.startswith("hyperstate"):
            continue
        name = getattr(f, "name", "<lambda>")
        s = g.setdefault(name, set())
        for n in ast.walk(f):
            if isinstance(n, ast.Name):
                s.add(n.id)
            elif isinstance(n, ast.Attribute):
                s.add(n.attr)
    return g


def who(ck):
    g = calls_of(ck.repo)
    reach, todo = set(), [r for r in READERS if r in g]
    while todo:
        x = todo.pop()
        if x not in reach:
            reach.add(x)
            todo += [y for y in g[x] if y in g]
    reached = {a.split(": ", 1)[1] for a in ck.assumptions if a.startswith("reached under the guard")}
    n = 0
    for name, m in sorted(ck.repo.modules.items()):
        if not name.startswith("hyperstate"):
            continue
        v = Mentions(m)
        v.visit(m.tree)
        ck.ob(R4, name, True)
        for full, fn, line, const in v.out:
            n += 1
            inst = "%s in %s.%s" % (full, name, fn)
            ok = const or "%s at %s:%d" % (full, m.path, line) in reached or fn != "<module>" and fn.split(".")[0] not in reach and fn.split(".")[-1] not in reach
            ck.ob(R4, inst, ok, "%s is used in a function that reads data, not under the guard" % full, "%s:%d (%s)" % (m.path, line, fn))
