"""Effect of each rewrite rule on a document.

Every rule kind, at top-level and nested fields of plain, defaulted and optional structs, alone and in sequences of two, is applied while loading documents of the old version in several shapes (fields and structs present, absent, empty, null; arbitrary values).
The loaded object must equal the one loaded from the document that an independent transcription of the rules' specification produces: only the named field changes, absent fields and structs are tolerated, defaults never replace given values and never bring
a struct into existence that has its own default.  Value checks must raise exactly for disallowed values.  The same rules are applied to schemas and compared field by field."""
from ..scen import *
from .. import tygen

R1, R2, R3, R4 = "C12.single-rule", "C12.two-rules", "C12.value-check", "C12.schema-rule"
SRC = tygen.HEAD + '''
from hyperstate.schema.rewrite_rule import RenameField, DeleteField, MapFieldValue, ChangeDefault, AddDefault, CheckValue, RejectValues
from hyperstate.schema.types import materialize_type


@dataclass
class S:
    x: int = 1
    y: int = 2
    z: int = 3


@dataclass
class N:
    s: S
    k: int = 5
    o: Optional[S] = None


RULES: Dict[int, Any] = {}


@dataclass
class Cfg(Versioned):
    s: S
    n: N
    p: int = 10
    q: int = 11
    d: S = field(default_factory=lambda: S(21, 22, 23))
    o: Optional[S] = None
    c: Color = Color.RED
    l: List[int] = field(default_factory=lambda: [1])
    m: Optional[int] = 7
    t: Optional[N] = None

    @classmethod
    def version(clz) -> int:
        return 2

    @classmethod
    def minimum_version(clz) -> int:
        return 0

    @classmethod
    def upgrade_rules(clz):
        return RULES


def rules(r0, r1):
    RULES.clear()
    if r0 is not None:
        RULES[0] = [r0]
    if r1 is not None:
        RULES[1] = [r1]


def more(x):
    return x + 100


def schema():
    return materialize_type(Cfg)


@dataclass
class OldS:
    x: int
    y: int = 2
    c: Color = Color.RED
    w: Literal["a", "b", "c"] = "a"


@dataclass
class OldN:
    s: OldS
    o: Optional[OldS] = None
    l: List[OldS] = field(default_factory=list)
    k: str = "k"


@dataclass
class Old(Versioned):
    s: OldS
    n: OldN
    p: int
    q: float = 0.5
    c: Color = Color.RED
    w: Literal["a", "b", "c"] = "a"

    @classmethod
    def version(clz) -> int:
        return 2

    @classmethod
    def upgrade_rules(clz):
        return {}


def old():
    return materialize_type(Old)


def apply_schema(rule, schema):
    rule.apply_to_schema(schema)


def variants(e):
    return e
'''
LEAVES = ["p", "q", "s.x", "s.y", "d.x", "o.x", "n.s.x", "n.k", "n.o.x", "oldp", "s.oldx", "d.oldx", "o.oldx", "n.s.oldx", "old.v", "m", "t.s.x"]
DEFAULTED = {"d": 1, "o": 1, "n.o": 1, "t": 1}     # structs with a default of their own


class W(dict):
    """a struct that only exists because a rule supplied a default for one of its fields"""


def parent(doc, path):
    """(the struct holding the last name of the path or None, is any struct on the way a default)"""
    weak = False
    for n in path[:-1]:
        doc = doc.get(n)
        if not isinstance(doc, dict):
            return None, False
        weak = weak or isinstance(doc, W)
    return doc, weak


def put(doc, path, v, explicit):
    for n in path[:-1]:
        if n not in doc or explicit and doc[n] is NONE:
            doc[n] = {} if explicit else W()
        if explicit and isinstance(doc[n], W):
            doc[n] = dict(doc[n])
        doc = doc[n]
        if not isinstance(doc, dict):
            return
    doc[path[-1]] = v


def spec(run, doc, rule):
    """the specification of the rules"""
    kind, path = rule[0], rule[1].split(".")
    par, weak = parent(doc, path)
    present = par is not None and path[-1] in par
    if kind == "delete" and present:
        del par[path[-1]]
    elif kind == "rename" and present:
        v = par.pop(path[-1])
        put(doc, rule[2].split("."), v, not weak)
    elif kind == "map" and present:
        par[path[-1]] = run.binop("+", par[path[-1]], C(100))
    elif kind in ("default", "add") and not present:
        put(doc, path, C(rule[2]), False)
    return doc


def target_present(doc, rule):
    if rule[0] != "rename":
        return False
    par, _ = parent(doc, rule[2].split("."))
    return par is not None and rule[2].split(".")[-1] in par


def finish(doc, here=""):
    out = {}
    for k, v in doc.items():
        p = here + "." + k if here else k
        if isinstance(v, W) and p in DEFAULTED:
            continue
        out[k] = finish(v, p) if isinstance(v, dict) else v
    return out


def shape(run, sh):
    """nested dict of document values"""
    n = [0]

    def s():
        n[0] += 1
        return run.sym("i%d" % n[0], {"int"})

    if sh == "absent":
        return {}
    if sh == "empty":
        return {"s": {}, "d": {}, "o": {}, "n": {"s": {}, "o": {}}, "old": {}}
    if sh == "null":
        return {"o": NONE, "p": s(), "oldp": s(), "n": {"o": NONE, "k": s()}, "s": {"y": s(), "oldx": s()}, "m": NONE, "t": NONE}
    if sh == "partial":
        return {"q": s(), "s": {"y": s()}, "d": {"y": s()}, "o": {"y": s()}, "n": {"s": {"y": s()}}, "old": {"u": s()}}
    if sh == "olds":
        st = lambda: {"oldx": s(), "y": s()}
        return {"oldp": s(), "s": st(), "d": st(), "o": st(), "n": {"s": st(), "o": st()}, "old": {"v": s(), "u": s()}}
    st = lambda: {"x": s(), "y": s(), "z": s()}
    return {"p": s(), "q": s(), "s": st(), "d": st(), "o": st(), "n": {"s": st(), "k": s(), "o": st()}, "c": C("blue"), "m": s(), "t": {"s": st()}, "l": Seq("list", [s(), s()]), "old": {"v": s()}}


SHAPES = ["full", "olds", "absent", "empty", "null", "partial"]


def doc_of(d, version, named):
    def conv(v, top=False):
        if not isinstance(v, dict):
            return v
        pairs = [(k, conv(x)) for k, x in v.items()]
        if top:
            pairs.insert(0, ("version", C(version)))
        return struct("Cfg" if top else "S", pairs) if named else mkdict(pairs)
    return conv(d, True)


def rule_object(run, rule):
    path = lambda p: Seq("tuple" if len(p) % 2 else "list", [C(x) for x in p.split(".")])
    f = lambda n, *a: call(run, "rw." + n, *a)
    k = rule[0]
    if k == "rename":
        return f("RenameField", path(rule[1]), path(rule[2]))
    if k == "delete":
        return f("DeleteField", path(rule[1]))
    if k == "map":
        return f("MapFieldValue", path(rule[1]), run.lookup("rw.more"))
    if k == "default":
        return f("ChangeDefault", path(rule[1]), C(rule[2]), C(rule[3]))
    if k == "add":
        return f("AddDefault", path(rule[1]), C(rule[2]))
    return f({"check": "CheckValue", "reject": "RejectValues"}[k], path(rule[1]), Seq("set", [C(x) for x in rule[2]]))


def text(r):
    return "%s(%s)" % (r[0], ", ".join(map(str, r[1:])))


def singles():
    out = []
    for p in LEAVES:
        out += [("delete", p), ("map", p), ("default", p, 41, 42), ("add", p, 43)]
        out += [("rename", p, q) for q in LEAVES if q != p]
    out += [("rename", "s", "d"), ("rename", "old", "o"), ("rename", "d", "o"), ("rename", "o", "s"), ("rename", "n.s", "s"), ("rename", "s", "n.s"), ("rename", "p", "new.p"), ("rename", "s.x", "a.b.c"), ("delete", "s"), ("delete", "o"), ("delete", "n.s"), ("delete", "n"), ("delete", "zz.y.x"),
            ("map", "zz.x"), ("rename", "zz.x", "p"), ("rename", "p.x", "q"), ("delete", "p.x")]
    return out


def pairs(thorough):
    out = []
    ps = ["p", "s.x", "d.x", "o.x", "n.s.x", "n.o.x"]
    for p in ps:
        qs = [q for q in (["q", "s.y", "d.z", "o.y", "n.s.z"] if thorough else ["q", "o.y", "s.y" if p != "s.x" else "d.y"]) if q != p]
        first = [("delete", p), ("map", p), ("default", p, 41, 42), ("add", p, 43)] + [("rename", p, q) for q in qs]
        for a in first:
            t = a[2] if a[0] == "rename" else p
            out += [(a, b) for b in [("delete", t), ("map", t), ("default", t, 42, 44), ("add", t, 45), ("default", t.rsplit(".", 1)[0] + ".z" if "." in t else "q", 46, 47)] + [("rename", t, q) for q in qs if q != t]
                    + [("rename", "old.v", t), ("rename", "oldp", t.rsplit(".", 1)[0] + ".y" if "." in t else "q")]]
    return out


def run(ck):
    client_src(ck, "rw", SRC)
    jobs = [lambda ck, r=r: effect(ck, R1, [r]) for r in singles()] + [lambda ck, rs=rs: effect(ck, R2, list(rs)) for rs in pairs(ck.thorough)]
    jobs += [lambda ck, a=(k, p): check(ck, *a) for k in ("check", "reject") for p in ("p", "s.x", "d.x", "o.x", "n.s.x", "m", "t.s.x")]
    jobs += [lambda ck, r=r: schema(ck, r) for r in SCHEMA_RULES]
    ck.map(jobs)
    for r, n in ((R1, 50), (R2, 50), (R3, 5), (R4, 5)):
        ck.need(n, r)


def loaded(run, doc):
    return call(run, "hyperstate.loads", run.lookup("rw.Cfg"), document(run, doc), ignore_extra_fields=TRUE)


def effect(ck, rule, rs):
    for sh in SHAPES:
        for named in ((True, False) if len(rs) == 1 and sh in ("full", "olds") else (True,)):
            inst = "%s on %s%s" % (" then ".join(map(text, rs)), sh, "" if named else " map")

            def entry(run):
                d = shape(run, sh)
                for r in rs:
                    if target_present(d, r):
                        return          # not specified: both names are in the document
                    if r[0] == "map" and sh == "null" and r[1] == "m":
                        return          # the mapping function is not defined for None
                    spec(run, d, r)
                call(run, "rw.rules", *[rule_object(run, r) for r in rs], *[NONE] * (2 - len(rs)))
                got, err = attempt(lambda: loaded(run, doc_of(shape(run, sh), 0, named)))
                want, werr = attempt(lambda: loaded(run, doc_of(finish(d), 2, True)))
                if err is not None:
                    # legitimate if the value does not fit the field it was moved to
                    return ck.ob(rule, inst, werr is not None, "loading fails: %s" % exc_text(run, err), loc(err.loc), ctx(run))
                if werr is not None:
                    return ck.ob(rule, inst, False, "a document that cannot be loaded is loaded as %s" % show(run.freeze(got))[:500], "hyperstate/schema/rewrite_rule.py", ctx(run))
                ck.ob(rule, inst, same(run, got, want), "the config is %s, expected %s" % (show(run.freeze(got))[:500], show(run.freeze(want))[:500]), "hyperstate/schema/rewrite_rule.py", ctx(run))

            ck.explore(entry, Opts(faults=False, max_paths=100))


def check(ck, kind, path):
    for sh in ("full", "absent", "empty", "null", "partial"):
        for val in ("any", 3, 4, 9):
            if val != "any" and sh != "full":
                continue
            inst = "%s(%s) on %s, value %s" % (kind, path, sh, val)

            def entry(run):
                d = shape(run, sh)
                par, _ = parent(d, path.split("."))
                last = path.split(".")[-1]
                present = par is not None and last in par
                if present and val != "any":
                    par[last] = C(val)
                v = par[last] if present else None
                call(run, "rw.rules", rule_object(run, (kind, path, (3, 4))), NONE)
                got, err = attempt(lambda: loaded(run, doc_of(d, 0, True)))
                if v is None:
                    listed, bad = None, False
                else:
                    listed = [x for x in (3, 4) if run.probe(lambda: run.eq(v, C(x)))]
                    known = listed or all(run.probe(lambda: run.eq(v, C(x))) is False for x in (3, 4))
                    if not known:
                        # the path did not look at the value
                        return ck.ob(R3, inst, False, "the value is %s although it was not compared with all listed values" % ("rejected" if err else "accepted"), "hyperstate/schema/rewrite_rule.py", ctx(run))
                    bad = bool(listed) == (kind == "reject")
                if err is not None:
                    return ck.ob(R3, inst, bad, "a value that is %s is rejected: %s" % ("absent" if v is None else "allowed", exc_text(run, err)), loc(err.loc), ctx(run))
                if bad:
                    return ck.ob(R3, inst, False, "a disallowed value is accepted", "hyperstate/schema/rewrite_rule.py", ctx(run))
                want = loaded(run, doc_of(finish(d), 2, True))
                ck.ob(R3, inst, same(run, got, want), "the config is %s, expected %s" % (show(run.freeze(got))[:500], show(run.freeze(want))[:500]), "hyperstate/schema/rewrite_rule.py", ctx(run))

            ck.explore(entry, Opts(faults=False, max_paths=200))


SCHEMA_RULES = [("rename", "p", "q2"), ("rename", "p", "s.p"), ("rename", "s.x", "xx"), ("rename", "s.x", "s.x2"), ("rename", "n.o.x", "n.o.xx"), ("rename", "n.l.x", "n.l.xx"), ("rename", "n.s.x", "s.z"), ("rename", "p", "fresh.p"), ("rename", "s", "s2"),
                ("delete", "p"), ("delete", "s.y"), ("delete", "n.o.y"), ("delete", "n.l.y"), ("delete", "s"), ("delete", "zz"), ("delete", "s.zz"), ("delete", "zz.x"),
                ("default", "q", 0.5, 0.25), ("default", "s.y", 2, 3), ("default", "n.o.y", 2, 3), ("default", "n.k", "k", "l"),
                ("add", "p", 3), ("add", "s.x", 4), ("add", "n.l.x", 5),
                ("map", "p"), ("map", "s.x"), ("map", "n.k"),
                ("check", "w", ("a", "b")), ("check", "s.w", ("a",)), ("check", "n.l.w", ("b",)), ("reject", "w", ("a",)), ("reject", "s.w", ("b", "c")), ("reject", "n.o.w", ("c",))]


def flat(run, st, here, out):
    """paths of all fields below an abstract Struct"""
    st = run.deref(st)
    while isinstance(st, Inst) and st.cls is not None and st.cls.name in ("Option", "List"):
        st = run.deref(run.getattr_(st, "type" if st.cls.name == "Option" else "inner"))
    if not isinstance(st, Inst) or st.cls is None or st.cls.name != "Struct":
        return out
    fs = run.deref(run.getattr_(st, "fields"))
    for k, v in fs.entries.values():
        if v is Dict.TOMB:
            continue
        p = (here + "." if here else "") + k.a[0]
        f = run.deref(v)
        t = run.deref(run.getattr_(f, "type"))
        inner = t
        while isinstance(inner, Inst) and inner.cls.name in ("Option", "List"):
            inner = run.deref(run.getattr_(inner, "type" if inner.cls.name == "Option" else "inner"))
        struct_ = isinstance(inner, Inst) and inner.cls.name == "Struct"
        out[p] = (None if struct_ else run.freeze(t), run.freeze(run.getattr_(f, "default")), run.freeze(run.getattr_(f, "has_default")), inner.cls.name if isinstance(inner, Inst) else "?", t)
        flat(run, t, p, out)
    return out


def schema(ck, rule):
    inst = text(rule)

    def entry(run):
        st = call(run, "rw.old")
        before = flat(run, st, "", {})
        got, err = attempt(lambda: call(run, "rw.apply_schema", rule_object(run, rule), st))
        if err is not None:
            return ck.ob(R4, inst, False, "the rule fails on the schema: %s" % exc_text(run, err), loc(err.loc), ctx(run))
        after = flat(run, st, "", {})
        k, p = rule[:2]
        want = {}
        for q, f in before.items():
            own = q == p or q.startswith(p + ".")
            if k == "delete" and own:
                continue
            if k == "rename" and own:
                new = rule[2].split(".")
                for i in range(1, len(new)):
                    want.setdefault(".".join(new[:i]), before.get(".".join(new[:i])))
                want[rule[2] + q[len(p):]] = f
                continue
            if q == p and k == "default":
                f = (f[0], C(rule[3])) + f[2:]
            if q == p and k == "add":
                f = (f[0], after[q][1] if q in after else f[1], FALSE) + f[3:]       # every upgraded document has a value: the default is not used
            want[q] = f
        if set(want) != set(after):
            return ck.ob(R4, inst, False, "the fields of the schema are %s, expected %s" % (sorted(after), sorted(want)), "hyperstate/schema/rewrite_rule.py", ctx(run))
        for q in want:
            if want[q] is None:
                ok = after[q][3] == "Struct"
            elif q == p and k in ("check", "reject"):
                vals = {"check": set(rule[2]), "reject": {"a", "b", "c"} - set(rule[2])}[k]
                t = after[q][4]
                av = [x for x in items(run.deref(run.getattr_(t, "allowed_values")))] if after[q][3] == "Literal" else []
                ok = after[q][3] == "Literal" and {run.bind_lit(x).a[0] for x in av} == vals and after[q][1:3] == want[q][1:3]
            else:
                ok = after[q][:4] == want[q][:4]
            ck.ob(R4, inst, ok, "the field %s becomes %s" % (q, after[q][:4]), "hyperstate/schema/rewrite_rule.py", ctx(run))

    ck.explore(entry, Opts(faults=False, max_paths=50))
