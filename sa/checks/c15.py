"""Schema files.

For every enumerated config type the schema computed from the class is compared with the type it was declared with (names, types, variants, values, defaults, versions); it is then written to a schema file by the tool and read
again, by interpretation, and must be the same schema up to documentation, and comparing the class with its own file must report nothing.  Default values are arbitrary (opaque) constants inside every kind of container."""
from ..scen import *
from ..schemas import *
from .. import schemas
from . import c14

R1, R2, R3 = "C15.schema-of-type", "C15.file-round-trip", "C15.no-change-to-own-file"
X = c14.X + '''
''' + schemas.TOOLS + '''from hyperstate.schema.types import load_schema


def write(path):
    write_schema(path, Cfg)


def reload(path):
    return load_schema(path)


def against(path):
    c = SchemaChecker(load_schema(path), Cfg)
    return (c.severity(), list(c.changes))


def own_default():
    return Cfg().b
'''
VERSIONED = ("", '''
@dataclass
class Cfg(Versioned):
%s

    @classmethod
    def version(clz) -> int:
        return VERSION

    @classmethod
    def minimum_version(clz) -> int:
        return 0

    @classmethod
    def upgrade_rules(clz):
        return {}
''')
WHERE = "hyperstate/schema/types.py (hyperstate.schema.types.materialize_type)"
INNER = '''
@dataclass
class Inner(Versioned):
    q: int
    r: str = "r"

    @classmethod
    def version(clz) -> int:
        return 7

    @classmethod
    def minimum_version(clz) -> int:
        return 0

    @classmethod
    def upgrade_rules(clz):
        return {}


@dataclass
class Base:
    first: int
    second: str = "s"


@dataclass
class Derived(Base):
    third: bool = True
    second: str = "t"


@dataclass
class SubInner(Inner):
    s: int = 1


class Mixin:
    def helper(self):
        return 1


@dataclass
class Mixed(Mixin, SubInner):
    t: int = 2

    @classmethod
    def version(clz) -> int:
        return 9


class Undecorated(Mixed):
    pass


@dataclass
class Holder(Versioned):
    inner: Inner
    si: SubInner
    mi: Optional[Mixed]
    un: List[Undecorated]
    d: Derived
    l: List[Inner]
    o: Optional[Derived] = None

    @classmethod
    def version(clz) -> int:
        return 2

    @classmethod
    def minimum_version(clz) -> int:
        return 0

    @classmethod
    def upgrade_rules(clz):
        return {}


def write_holder(path):
    write_schema(path, Holder)


def holder():
    return materialize_type(Holder)
'''


def run(ck):
    ts = c14.BASE + c14.CONT + c14.DEEP + c14.UN + [opt(c14.E1), dct(c14.E5), Ty("edict", c14.E1, INT), tup(lst(INT), c14.S[5], opt(STR)), lst(tup(c14.E1, opt(c14.S[6]))), dct(dct(c14.S[1]))]
    ts += [f(t) for t in (BOOL, c14.L4, c14.E5, FLOAT) for f in (opt, lst, dct, idct)] + [tup(BOOL, BOOL), tup(STR, STR, STR), union(lst(BOOL), dct(BOOL)), Ty("edict", c14.L1, BOOL)]
    # large and deeply nested types
    many = enum("Many", **{"V%d" % i: "value%d" % i for i in range(12)})
    big = st("Big", *[("f%d" % i, [INT, STR, BOOL, FLOAT][i % 4]) for i in range(12)])
    chain = big
    for i in range(7):
        chain = st("Chain%d" % i, ("n", [lambda t: t, opt, lst, dct][i % 4](chain)), ("j%d" % i, INT, str(i)))
    ts += [many, lit(*range(12)), lit(*["w%d" % i for i in range(12)]), tup(*[INT, STR, BOOL] * 4), big, chain, lst(lst(dct(opt(lst(dct(tup(lst(INT), STR))))))), union(lst(INT), dct(INT), tup(INT), opt(STR)) if 0 else union(lst(INT), dct(INT), tup(INT), lst(STR), dct(STR))]
    ts = list(dict.fromkeys(ts))
    jobs = []
    for i, t in enumerate(ts):
        client_src(ck, "t%d" % i, schemas.module(st("Cfg", ("x", t), ("o", st("Out", ("y", t), ("z", INT, "4")))), X, VERSIONED[1]))
        jobs.append(lambda ck, a=(i, t): one(ck, *a))
    for i, (lab, t, text, kind) in enumerate(DEFAULTS):
        for nested in (False, True):
            m = "d%d%s" % (i, "n" if nested else "")
            f = ("b", t, text)
            client_src(ck, m, schemas.module(st("Cfg", f) if not nested else st("Cfg", ("o", st("Out", ("c", INT), f))), X, VERSIONED[1]))
            jobs.append(lambda ck, a=(m, lab, t, text, kind, nested): default(ck, *a))
    client_src(ck, "holder", schemas.module(st("Cfg", ("x", INT)), X + INNER))
    jobs.append(holder)
    ck.map(jobs)
    ck.need(60, R1)
    ck.need(60, R2)
    ck.need(60, R3)


def att(run, o, k):
    return run.deref(run.getattr_(o, k))


def const(run, v):
    v = run.bind_lit(run.deref(v))
    return v.a[0] if is_c(v) else None


def entries(run, d):
    d = run.deref(d)
    return [(run.bind_lit(k), v) for k, (_, v) in d.entries.items() if v is not Dict.TOMB] if isinstance(d, Dict) and d.base is None else None


def wrong_type(run, s, t, path="config"):
    """how the abstract schema differs from the declared type; None if it does not"""
    s = run.deref(s)
    if not isinstance(s, Inst):
        return "%s is described as %s" % (path, sh(run, s))
    name = s.cls.name.split(".")[-1]
    want = {"int": "Primitive", "str": "Primitive", "bool": "Primitive", "float": "Primitive", "opt": "Option", "list": "List", "dict": "Dict", "idict": "Dict", "edict": "Dict", "tuple": "Tuple", "union": "Union",
            "lit": "Literal", "enum": "Enum", "struct": "Struct"}[t.op]
    if name != want:
        return "%s of type %r is described as a %s" % (path, t, name)
    if t.op in ("int", "str", "bool", "float"):
        return None if const(run, att(run, s, "type")) == t.op else "%s of type %r is described as %s" % (path, t, const(run, att(run, s, "type")))
    if t.op == "opt":
        return wrong_type(run, att(run, s, "type"), t.args[0], path + "?")
    if t.op == "list":
        return wrong_type(run, att(run, s, "inner"), t.args[0], path + "[]")
    if t.op in ("dict", "idict", "edict"):
        k = STR if t.op == "dict" else INT if t.op == "idict" else t.args[0]
        return wrong_type(run, att(run, s, "key"), k, path + " key") or wrong_type(run, att(run, s, "val"), t.args[-1], path + "{}")
    if t.op in ("tuple", "union"):
        it = items(att(run, s, "inner" if t.op == "tuple" else "types"))
        if it is None or len(it) != len(t.args):
            return "%s of type %r has %s alternatives" % (path, t, None if it is None else len(it))
        return next((w for w in (wrong_type(run, x, a, "%s#%d" % (path, i)) for i, (x, a) in enumerate(zip(it, t.args))) if w), None)
    if t.op == "lit":
        got = [const(run, x) for x in items(att(run, s, "allowed_values")) or []]
        return None if sorted(map(repr, got)) == sorted(map(repr, t.args)) else "%s allows %r instead of %r" % (path, got, list(t.args))
    if const(run, att(run, s, "name")) != t.args[0]:
        return "%s of type %s is described as %s" % (path, t.args[0], const(run, att(run, s, "name")))
    if t.op == "enum":
        es = entries(run, att(run, s, "variants"))
        got = [(const(run, k), const(run, v)) for k, v in es or []]
        return None if got == list(t.args[1]) else "%s has the variants %r instead of %r" % (path, got, list(t.args[1]))
    es = entries(run, att(run, s, "fields"))
    if es is None or [const(run, k) for k, _ in es] != [n for n, _, _ in t.args[1]]:
        return "%s has the fields %s instead of %s" % (path, [const(run, k) for k, _ in es or []], [n for n, _, _ in t.args[1]])
    for (k, f), (n, ft, d) in zip(es, t.args[1]):
        if const(run, att(run, f, "name")) != n:
            return "field %s of %s is called %s" % (n, path, const(run, att(run, f, "name")))
        w = wrong_type(run, att(run, f, "type"), ft, path + "." + n)
        if w:
            return w
        has = run.truth(att(run, f, "has_default"))
        if has != (d is not None):
            return "%s.%s is described as having %s default" % (path, n, "a" if has else "no")
    return None


def plain(run, v):
    """structs as dictionaries, enums as values, tuples as lists"""
    v = run.bind_lit(run.deref(v))
    if isinstance(v, Nt):
        return plain(run, v.d)
    if isinstance(v, Inst) and v.cls is not None and run.is_enum_class(v.cls):
        return plain(run, run.getattr_(v, "value"))
    if isinstance(v, Inst):
        return mkdict([(k, plain(run, x)) for k, (_, x) in v.d.entries.items() if x is not Dict.TOMB])
    if isinstance(v, T) and v.op == "enum":
        return plain(run, run.getattr_(v, "value"))
    if isinstance(v, Dict):
        return mkdict([(run.freeze(plain(run, k)) if not is_c(k) else k, plain(run, x)) for k, (_, x) in v.entries.items() if x is not Dict.TOMB])
    it = items(v)
    if it is not None:
        return Seq("list", [plain(run, x) for x in it])
    return v


def differ(run, a, b, path="schema"):
    """how the schema b differs from the schema a, but for documentation"""
    a, b = run.bind_lit(run.deref(a)), run.bind_lit(run.deref(b))
    if isinstance(a, Inst) and isinstance(b, Inst):
        if a.cls is not b.cls:
            return "%s is a %s instead of a %s" % (path, b.cls.name, a.cls.name)
        for k in sorted(set(a.d.entries) | set(b.d.entries), key=show):
            n = k.a[0]
            if n == "docstring":
                continue
            if n == "default":
                x, y = plain(run, att(run, a, n)), plain(run, att(run, b, n))
                ok = same(run, x, y)
                w = None if ok is True else "the default of %s is %s instead of %s" % (path, sh(run, y), sh(run, x))
            else:
                w = differ(run, att(run, a, n), att(run, b, n), "%s.%s" % (path, n))
            if w:
                return w
        return None
    if isinstance(a, Dict) and isinstance(b, Dict):
        ka, kb = [k for k, (_, v) in a.entries.items() if v is not Dict.TOMB], [k for k, (_, v) in b.entries.items() if v is not Dict.TOMB]
        if set(ka) != set(kb):
            return "%s has the entries %s instead of %s" % (path, [show(k) for k in kb], [show(k) for k in ka])
        return next((w for w in (differ(run, a.entries[k][1], b.entries[k][1], "%s[%s]" % (path, show(k))) for k in ka) if w), None)
    ia, ib = items(a), items(b)
    if ia is not None and ib is not None:
        if len(ia) != len(ib):
            return "%s has %d elements instead of %d" % (path, len(ib), len(ia))
        return next((w for w in (differ(run, x, y, "%s[%d]" % (path, i)) for i, (x, y) in enumerate(zip(ia, ib))) if w), None)
    return None if same(run, a, b) is True else "%s is %s instead of %s" % (path, sh(run, b), sh(run, a))


def sh(run, v):
    return c14.sh(run, v)


def file_trip(ck, run, m, inst, schema):
    d = directory(run, "dir")
    p = under(d, "config-schema.ron")

    def go():
        call(run, m + ".write", p)
        return call(run, m + ".reload", p), call(run, m + ".against", p)
    got, err = attempt(go)
    if err is not None:
        return ck.ob(R2, inst, None if opaque_facts(run) else False, "writing and reading the schema fails: %s" % exc_text(run, err), loc(err.loc), ctx(run))
    w = differ(run, schema, got[0])
    ck.ob(R2, inst, w is None, "after writing and reading the schema %s" % w, "hyperstate/schema/types.py (hyperstate.schema.types.load_schema)", ctx(run))
    sev, cs = items(got[1])
    cs = c14.changes(run, cs)
    ck.ob(R3, inst, not cs, "%s is reported for a class and its own schema file" % c14.brief(cs), c14.WHERE, ctx(run))


def one(ck, i, t):
    m, inst = "t%d" % i, repr(t)
    root = st("Cfg", ("x", t), ("o", st("Out", ("y", t), ("z", INT, "4"))))

    def entry(run):
        v = nat(run, "version")
        s, err = attempt(lambda: call(run, m + ".schema"))
        if err is not None:
            return ck.ob(R1, inst, None if opaque_facts(run) else False, "the schema cannot be computed: %s" % exc_text(run, err), loc(err.loc), ctx(run))
        w = wrong_type(run, s, root)
        if w is None and same(run, att(run, s, "version"), v) is not True:
            w = "the version is %s" % sh(run, att(run, s, "version"))
        ck.ob(R1, inst, w is None, w or "", WHERE, ctx(run))
        file_trip(ck, run, m, inst, s)
    ck.explore(entry, Opts(faults=False, rec_default=80, max_paths=50, globals={m: {"VERSION": T("sym", "version")}}))


E1, N1, N2 = c14.E1, c14.N1, c14.N2
ST = st("S", ("a", INT, "1"), ("e", E1, "E.B"), ("t", tup(INT, INT), "(1, 2)"))
DEFAULTS = [(lab, t, text % "DEFAULT", c14.SYM_KIND.get(lab, "int")) for lab, t, text in c14.SYMBOLIC] + [
    ("None", opt(INT), "None", None), ("empty list", lst(INT), "[]", None), ("empty dict", dct(INT), "{}", None), ("zero", INT, "0", None), ("empty string", STR, '""', None), ("False", BOOL, "False", None), ("integer for float", FLOAT, "1", None),
    ("enum", E1, "E.B", None), ("enum with numbers", c14.E5, "E.B", None), ("optional enum", opt(E1), "E.A", None), ("no enum", opt(E1), "None", None), ("enum in list", lst(E1), "[E.A, E.B]", None), ("enum in dict", dct(E1), '{"k": E.B}', None),
    ("enum in tuple", tup(E1, INT), "(E.B, 1)", None), ("enum as key", Ty("edict", E1, INT), "{E.A: 1}", None), ("literal", lit("p", "q"), '"q"', None), ("number literal", lit(1, 2), "2", None),
    ("struct with enum and tuple", ST, "S()", None), ("struct in list", lst(ST), "[S(), S(2, E.A)]", None), ("struct in dict", dct(ST), '{"k": S(3)}', None), ("struct in tuple", tup(ST, INT), "(S(4), 5)", None), ("optional struct", opt(ST), "S(6)", None),
    ("absent struct", opt(ST), "None", None), ("struct of structs", st("W", ("s", ST), ("o", opt(ST), "None")), "W(S(5), S(6))", None), ("struct without fields", st("Em"), "Em()", None), ("lists of lists", lst(lst(INT)), "[[1], []]", None),
    ("list of tuples", lst(tup(INT, STR)), '[(1, "p")]', None), ("one-element tuple", tup(INT), "(1,)", None), ("list in union", union(lst(INT), dct(INT)), "[1]", None), ("dict in union", union(lst(INT), dct(INT)), '{"k": 1}', None),
    ("numbers as keys", idct(STR), '{1: "p"}', None), ("dict of lists of structs", dct(lst(ST)), '{"k": [S()]}', None)]


def default(ck, m, lab, t, text, kind, nested):
    inst = "default: %s (%r = %s)%s" % (lab, t, text, ", nested" if nested else "")
    root = st("Cfg", ("b", t, text)) if not nested else st("Cfg", ("o", st("Out", ("c", INT), ("b", t, text))))

    def entry(run):
        if kind:
            run.sym("default", {kind})
        s, err = attempt(lambda: call(run, m + ".schema"))
        if err is not None:
            return ck.ob(R1, inst, None if opaque_facts(run) else False, "the schema cannot be computed: %s" % exc_text(run, err), loc(err.loc), ctx(run))
        w = wrong_type(run, s, root)
        if w is None:
            f = run.deref(entries(run, att(run, s, "fields"))[0][1])
            if nested:
                f = run.deref(entries(run, att(run, att(run, f, "type"), "fields"))[1][1])
            else:
                want = call(run, m + ".own_default")
                x, y = plain(run, want), plain(run, att(run, f, "default"))
                if same(run, x, y) is not True:
                    w = "the default is described as %s instead of %s" % (sh(run, y), sh(run, x))
            if kind and w is None and not any(x.op == "sym" and x.a[0] == "default" for x in subterms(run.freeze(plain(run, att(run, f, "default"))))):
                w = "the default is described as %s" % sh(run, att(run, f, "default"))
        ck.ob(R1, inst, w is None, w or "", WHERE, ctx(run))
        file_trip(ck, run, m, inst, s)
    ck.explore(entry, Opts(faults=False, rec_default=80, max_paths=50, globals={m: {"DEFAULT": T("sym", "default"), "VERSION": C(3)}}))


def holder(ck):
    def entry(run):
        s = call(run, "holder.holder")
        fs = dict((const(run, k), run.deref(v)) for k, v in entries(run, att(run, s, "fields")))

        def versions(x):
            x = run.deref(x)
            n = x.cls.name.split(".")[-1]
            if n in ("Option", "List"):
                return versions(att(run, x, "type" if n == "Option" else "inner"))
            return const(run, att(run, x, "version"))
        got = {"config": const(run, att(run, s, "version"))}
        got.update({k: versions(att(run, f, "type")) for k, f in fs.items()})
        want = {"config": 2, "inner": 7, "si": 7, "mi": 9, "un": 9, "d": None, "l": 7, "o": None}
        ck.ob(R1, "versions of nested configs", got == want, "the versions are %r instead of %r" % (got, want), WHERE, ctx(run))
        d = att(run, fs["d"], "type")
        names = [(const(run, k), const(run, att(run, run.deref(v), "default"))) for k, v in entries(run, att(run, d, "fields"))]
        want = [("first", None), ("second", "t"), ("third", True)]
        ck.ob(R1, "inherited fields", names == want, "the fields and defaults are %r instead of %r" % (names, want), WHERE, ctx(run))
        p = under(directory(run, "dir"), "s.ron")
        call(run, "holder.write_holder", p)
        got, err = attempt(lambda: call(run, "holder.reload", p))
        w = exc_text(run, err) if err is not None else differ(run, s, got)
        ck.ob(R2, "versions of nested configs", w is None, "after writing and reading the schema: %s" % w, WHERE, ctx(run))
    ck.explore(entry, Opts(faults=False, rec_default=80, max_paths=50))
