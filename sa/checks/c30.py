"""Proposed mitigations.

For every edit of the catalogue that the checker classifies as a warning, the proposed rules are added to the upgrade rules of the new class (again, if the checker then proposes further ones), all by interpretation; an arbitrary
config of the old class, dumped with and without defaults, is then loaded as the new class.  It must load, with the content of the old one carried over as the edit demands, and the checker must be quiet afterwards."""
from ..scen import *
from ..schemas import *
from .. import schemas
from . import c14
from .c14 import E1, E2, E3, E4, E5, E6, L1, L2, L3, N1, N2

R1, R2, R3 = "C30.loads", "C30.quiet", "C30.rejects"
BASE = '''
RULES = {}
OLD_VERSION = 0
NEW_VERSION = 1


@dataclass
class Cfg(Versioned):
%s

    @classmethod
    def version(clz) -> int:
        return VERSION

    @classmethod
    def minimum_version(clz) -> int:
        return 0

    @classmethod
    def upgrade_rules(clz):
        return RULES
'''
X = c14.X + '''
''' + schemas.TOOLS + '''from hyperstate.schema.types import load_schema


def saved():
    path = "config-schema.ron"
    write_schema(path, Cfg)
    return load_schema(path)


def follow(make, rounds):
    rules = []
    for i in range(rounds):
        RULES.clear()
        RULES[3] = rules
        c = SchemaChecker(make(), Cfg)
        if not c.proposed_fixes:
            break
        rules = rules + c.proposed_fixes
    RULES[3] = rules
    return (c.severity(), list(c.changes))
'''
A = ("a", INT)


def keep(old):
    return dict(old)


def ren(a, b):
    def f(d):
        d = dict(d)
        d[b] = d.pop(a)
        return d
    return f


def drop(*ks):
    return lambda d: {k: v for k, v in d.items() if k not in ks}


def put(**kw):
    return lambda d: dict(d, **{k: v for k, v in kw.items()})


def val(k, m):
    """the constant values of a leaf are mapped"""
    return lambda d: dict(d, **{k: C(m.get(d[k].a[0], d[k].a[0])) if is_c(d[k]) else d[k]})


def wrap(k):
    return lambda d: dict(d, **{k: Seq("list", [d[k]])})


def move(a, *p):
    """a leaf moves to the path p (None: the struct is new)"""
    def f(d):
        d = dict(d)
        d.setdefault(p[0], {})
        d[p[0]] = dict(d[p[0]], **{p[1]: d.pop(a)})
        return d
    return f


def out(p, k, b):
    def f(d):
        d = dict(d)
        d[b] = d[p][k]
        del d[p]
        return d
    return f


ENUM_VALUES = [(E1, E4, {"b": "z"}), (E1, enum("E", A="z", B="b"), {"a": "z"}), (E1, enum("E", A="y", B="z"), {"a": "y", "b": "z"}), (E5, enum("E", A=1, B=3), {2: 3}), (E1, enum("E", A="a", AB="z"), {"b": "z"}), (E6, enum("E", A="a", B="b", C="cc"), {"c": "cc"}),
               (E1, enum("E", A="b", B="a"), {"a": "b", "b": "a"}), (E1, enum("E", A="b", B="c"), {"a": "b", "b": "c"}), (E1, enum("E", A="b2", B="a"), {"a": "b2", "b": "a"})]
Q = [("k", INT, "1"), ("j", STR, '"s"')]


def edits():
    """(old fields, new fields, how the plain value changes, quiet afterwards)"""
    o = []
    for t in (INT, lst(INT), opt(STR), E1, N1, dct(INT), tup(INT, STR)):
        o.append(([A, ("b", t)], [A], drop("b"), True))
    o += [([A, ("b", STR, '"x"')], [A], drop("b"), True), ([A, ("b", opt(N1), "None")], [A], drop("b"), True), ([A, ("n", st("N", *Q), "N()")], [A], drop("n"), True),
          ([A, ("m", st("M", ("n", N1), ("u", BOOL)))], [A], drop("m"), True), ([A, ("n", st("N"))], [A], drop("n"), True), ([A, ("b", INT), ("c", STR)], [A], drop("b", "c"), True)]
    o += [([A], [A, ("b", opt(STR))], put(b=NONE), True), ([A], [A, ("b", lst(STR))], put(b=Seq("list", [])), True), ([A], [A, ("b", opt(N1))], put(b=NONE), True), ([A], [A, ("b", lst(INT)), ("c", opt(INT))], put(b=Seq("list", []), c=NONE), True)]
    for t, d1, d2 in ((INT, "1", "2"), (STR, '"p"', '""'), (BOOL, "True", "False"), (opt(INT), "None", "0"), (opt(INT), "3", "None"), (FLOAT, "0.5", "0.25"), (E1, "E.A", "E.B"), (L1, '"p"', '"q"'), (lst(INT), "[]", "[1]"), (lst(E1), "[E.A]", "[E.B]"),
                      (dct(INT), "{}", '{"k": 1}'), (tup(INT, INT), "(1, 2)", "(1, 3)"), (opt(N1), "N(1)", "N(2)"), (opt(N1), "N(1)", "None"), (opt(N1), "None", "N(1)"), (st("N", *Q), "N(3)", "N(4)"), (lst(N1), "[N(1)]", "[N(2)]")):
        o += [([A, ("b", t, d1)], [A, ("b", t, d2)], keep, True), ([A, ("b", t, d1)], [A, ("b", t)], keep, True)]
    o += [([A, ("n", st("N", ("k", INT, "1")))], [A, ("n", st("N", ("k", INT, "2")))], keep, True), ([A, ("n", st("N", ("k", INT, "1"), ("j", STR)))], [A, ("n", st("N", ("k", INT), ("j", STR)))], keep, True),
          ([A, ("n", st("N", *Q), "N()")], [A, ("n", st("N", ("k", INT, "2"), ("j", STR, '"t"')), "N()")], keep, True)]
    for t, d in ((BOOL, None), (lst(INT), None), (opt(N1), None), (E1, None), (INT, "5"), (lst(STR), '["x"]'), (tup(INT, STR), None)):
        f = ("cost", t) + ((d,) if d else ())
        g = ("costs",) + f[1:]
        o.append(([A, f], [A, g], ren("cost", "costs"), True))
    o += [([("learning_rate", FLOAT, "0.5"), ("bs", INT, "3")], [("lr", FLOAT, "0.5"), ("batch_size", INT, "3")], lambda d: {"lr": d["learning_rate"], "batch_size": d["bs"]}, True),
          ([A, ("cost", INT)], [A, ("costs", opt(INT))], ren("cost", "costs"), True), ([A, ("cost", lst(INT))], [A, ("costs", lst(FLOAT))], ren("cost", "costs"), True),
          ([A, ("cost", BOOL)], [A, ("n", st("N", ("cost", BOOL)))], move("cost", "n", "cost"), True), ([A, ("cost", BOOL), ("n", N1)], [A, ("n", st("N", ("k", INT), ("cost", BOOL)))], move("cost", "n", "cost"), True),
          ([A, ("cost", BOOL), ("n", N1)], [A, ("n", st("N", ("k", INT), ("costs", BOOL)))], move("cost", "n", "costs"), True),
          ([A, ("n", st("N", ("cost", BOOL)))], [A, ("cost", BOOL)], out("n", "cost", "cost"), True), ([A, ("n", st("N", ("k", INT), ("cost", BOOL)))], [A, ("n", N1), ("cost", BOOL)], lambda d: {"a": d["a"], "n": {"k": d["n"]["k"]}, "cost": d["n"]["cost"]}, True),
          ([("net", st("N", *Q))], [("nets", st("N", *Q))], ren("net", "nets"), True), ([("net", st("N", *Q), "N()")], [("nets", st("N", *Q), "N()")], ren("net", "nets"), True), ([("net", N1), A], [("nets", st("NN", ("k", INT))), A], ren("net", "nets"), True),
          ([("net", opt(N1), "None")], [("nets", opt(N1), "None")], ren("net", "nets"), True)]
    for x, y, m in ENUM_VALUES:
        o.append(([A, ("e", x)], [A, ("e", y)], val("e", m), True))
        o.append(([A, ("e", opt(x))], [A, ("e", opt(y))], val("e", m), True))
    o += [([("e", E1, "E.B")], [("e", E4, "E.B")], val("e", {"b": "z"}), True), ([("e", E1, "E.A")], [("e", E4, "E.B")], val("e", {"b": "z"}), True), ([("e", E1, "E.B")], [("e", E4)], val("e", {"b": "z"}), True), ([("e", opt(E1), "E.B")], [("e", opt(E4), "E.B")], val("e", {"b": "z"}), True),
          ([("e", E1), ("f", E1)], [("e", E4), ("f", E4)], lambda d: val("f", {"b": "z"})(val("e", {"b": "z"})(d)), True)]
    for t, w in ((INT, False), (STR, False), (E1, False)):
        o.append(([A, ("b", t)], [A, ("b", lst(t))], wrap("b"), w))
    o += [([("b", INT, "3")], [("b", lst(INT), "[3]")], wrap("b"), False), ([("b", INT, "3")], [("b", lst(INT))], wrap("b"), False)]
    return o


PLACES = ["config", "nested", "deep", "optional", "absent"]


def root(fields, place):
    s = st("S", *fields)
    if place == "config":
        return st("Cfg", *fields)
    if place == "nested":
        return st("Cfg", ("s", s), ("w", BOOL))
    if place == "deep":
        return st("Cfg", ("o", st("Out", ("u", STR), ("s", s))))
    if place == "absent":
        return st("Cfg", ("w", INT), ("s", opt(s), "None"))
    return st("Cfg", ("w", INT), ("s", opt(s)))


def at(place, f):
    if place == "config":
        return f
    if place == "deep":
        return lambda d: dict(d, o=at("nested", f)(d["o"]))
    return lambda d: d if d["s"] is NONE else dict(d, s=f(d["s"]))


def run(ck):
    mods, jobs = {}, []

    def mod(r):
        if r not in mods:
            mods[r] = "m%d" % len(mods)
            client_src(ck, mods[r], schemas.module(r, X, BASE))
        return mods[r]
    for old, new, f, quiet in edits():
        for place in PLACES:
            a, b = root(old, place), root(new, place)
            jobs.append(lambda ck, x=(a, b, mod(a), mod(b), at(place, f), quiet): one(ck, *x))
    for old, new, bad in REJECT:
        for place in PLACES:
            a, b = root(old, place), root(new, place)
            jobs.append(lambda ck, x=(a, b, mod(a), mod(b), bad): reject(ck, *x))
    ck.map(jobs)
    ck.need(len(edits()) * 2, R1)
    ck.need(len(edits()), R2)
    ck.need(10, R3)


WHERE = "hyperstate/schema/schema_change.py (proposed_fix)"


def old_doc(ck, run, a, mo, elide):
    g = Values(run, mo)
    v = g.construct(a, run.lookup(mo + ".Cfg"))
    return v, call(run, mo + ".plain", v), call(run, mo + ".dump", v, elide)


def pyd(run, v):
    """abstract plain value with dictionaries of constant keys as python dictionaries (structs)"""
    v = run.bind_lit(run.deref(v))
    if isinstance(v, Dict) and all(is_c(k) for k in v.entries):
        return {k.a[0]: pyd(run, x) for k, (_, x) in v.entries.items() if x is not Dict.TOMB}
    return v


def absd(run, v):
    if isinstance(v, dict):
        return mkdict([(k, absd(run, x)) for k, x in v.items()])
    return v


def one(ck, a, b, mo, mn, f, quiet):
    inst = "%r -> %r" % (a, b)

    def entry(run):
        r, err = attempt(lambda: call(run, mn + ".follow", run.lookup(mo + ".saved"), C(5 if quiet else 1)))
        if err is not None:
            return ck.ob(R2, inst, None if opaque_facts(run) else False, "comparing the schemas with the proposed rules fails: %s" % exc_text(run, err), loc(err.loc), ctx(run))
        sev, cs = items(r)
        sev, cs = c14.level(run, sev), c14.changes(run, cs)
        if quiet:
            ck.ob(R2, inst, sev == "INFO", "with all proposed rules the checker still reports %s (%s)" % (c14.brief(cs), sev), WHERE, ctx(run))
    ck.explore(entry, opts(mo, mn))

    def entry(run):
        elide = TRUE if run.choose("elide", 2) else FALSE
        v, plain, text = old_doc(ck, run, a, mo, elide)
        call(run, mn + ".follow", run.lookup(mo + ".saved"), C(5 if quiet else 1))
        got, err = attempt(lambda: call(run, mn + ".read", text))
        how = "%s, dumped%s," % (c14.sh(run, v), " without defaults" if elide is TRUE else "")
        if err is not None:
            return ck.ob(R1, inst, None if opaque_facts(run) else False, "%s cannot be loaded with the proposed rules: %s" % (how, exc_text(run, err)), loc(err.loc), ctx(run))
        want = absd(run, f(pyd(run, plain)))
        for k in ("version",):
            c14_drop(want, k)
        ok = c14.kept(run, want, call(run, mn + ".plain", got), mn)
        ck.ob(R1, inst, ok, "%s is loaded with the proposed rules as %s" % (how, c14.sh(run, got)), WHERE, ctx(run))
    if quiet is not None:
        ck.explore(entry, opts(mo, mn))


def c14_drop(d, k):
    d.entries.pop(C(k), None)


def opts(mo, mn):
    return Opts(faults=False, rec_default=30, max_paths=300, globals={mo: {"VERSION": C(3)}, mn: {"VERSION": C(4)}})


REJECT = [([A, ("b", lit("p", "q"))], [A, ("b", lit("p"))], {"q"}), ([A, ("b", lit("p", "q"))], [A, ("b", lit("q", "r"))], {"p"}), ([A, ("b", opt(lit("p", "q")))], [A, ("b", opt(lit("p")))], {"q"}), ([A, ("b", lit(1, 2, 3))], [A, ("b", lit(2))], {1, 3}),
          ([A, ("b", STR)], [A, ("b", lit("p", "q"))], "other"), ([A, ("b", opt(lit("p", "q")))], [A, ("b", lit("p", "q"))], "none")]


def reject(ck, a, b, mo, mn, bad):
    """values that no longer exist are rejected, the others are kept"""
    inst = "%r -> %r" % (a, b)

    def leaf(run, d):
        d = pyd(run, d)
        if "o" in d:
            d = d["o"]
        if "s" in d:
            d = d["s"]
        return d["b"] if isinstance(d, dict) else None

    def entry(run):
        elide = TRUE if run.choose("elide", 2) else FALSE
        v, plain, text = old_doc(ck, run, a, mo, elide)
        r, err = attempt(lambda: call(run, mn + ".follow", run.lookup(mo + ".saved"), C(5)))
        if err is not None:
            return ck.ob(R2, inst, None if opaque_facts(run) else False, "comparing the schemas with the proposed rules fails: %s" % exc_text(run, err), loc(err.loc), ctx(run))
        sev, cs = items(r)
        sev, cs = c14.level(run, sev), c14.changes(run, cs)
        ck.ob(R2, inst, sev == "INFO", "with all proposed rules the checker still reports %s (%s)" % (c14.brief(cs), sev), WHERE, ctx(run))
        x = leaf(run, plain)
        is_bad = False
        if x is not None:
            if bad == "none":
                is_bad = x is NONE
            elif bad == "other":
                is_bad = not any(run.truth(call(run, mn + ".equal", x, C(v))) for v in ("p", "q"))
            else:
                is_bad = is_c(x) and x.a[0] in bad
        got, err = attempt(lambda: call(run, mn + ".read", text))
        if is_bad:
            return ck.ob(R3, inst, err is not None, "%s, which no longer is a value of its field, is accepted as %s" % (c14.sh(run, v), got is not None and c14.sh(run, got)), WHERE, ctx(run))
        if err is not None:
            return ck.ob(R1, inst, None if opaque_facts(run) else False, "%s cannot be loaded with the proposed rules: %s" % (c14.sh(run, v), exc_text(run, err)), loc(err.loc), ctx(run))
        want = absd(run, pyd(run, plain))
        c14_drop(want, "version")
        ok = c14.kept(run, want, call(run, mn + ".plain", got), mn)
        ck.ob(R1, inst, ok, "%s is loaded with the proposed rules as %s" % (c14.sh(run, v), c14.sh(run, got)), WHERE, ctx(run))
    ck.explore(entry, opts(mo, mn))
