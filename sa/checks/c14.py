"""Schema checker.

Pairs: for every ordered pair of the enumerated field types the schema of the old config and the new config are compared by interpreting the checker.  Equal types must give no change, different ones at least one; and where
the verdict is "compatible", or one type is called a subtype of the other, an arbitrary value of the old config is dumped by the old class and loaded by the new one, also by interpretation: that must succeed and keep
every part of the value.
Edits: every kind of edit, at every placement of the edited type, must be reported at its path with its details, severity and proposed rule, and nothing else may be reported.  Defaults and enum values are opaque constants there."""
import itertools
from ..scen import *
from ..schemas import *
from .. import schemas

R1, R2, R3, R4, R5, R6 = "C14.identical", "C14.compatible-loads", "C14.subtype-loads", "C14.difference-reported", "C14.edit-reported", "C14.verdict"
X = '''
def check(schema):
    c = SchemaChecker(schema, Cfg, perform_upgrade=False)
    return (c.severity(), list(c.changes), list(c.proposed_fixes))


def check_sub(schema, name):
    c = SchemaChecker(schema, Cfg, perform_upgrade=False)
    return (c.severity(), list(c.changes), schema.fields[name].type.is_subtype(c.new.fields[name].type))


def report(schema):
    c = SchemaChecker(schema, Cfg, perform_upgrade=False)
    c.print_report()
    return c.severity()


def schema():
    return materialize_type(Cfg)


def dump(value, elide):
    return hyperstate.dumps(value, elide_defaults=elide)


def read(text):
    return hyperstate.loads(Cfg, text)


def equal(a, b):
    return a == b


def real(n):
    return float(n)


def plain(value):
    from hyperstate.serde import asdict
    return asdict(value)
'''

E1, E2, E3, E4, E5, E6 = enum("E", A="a", B="b"), enum("E", A="a"), enum("E", A="a", AB="b"), enum("E", A="a", B="z"), enum("E", A=1, B=2), enum("E", A="a", B="b", C="c")
F1 = enum("F", A="a", B="b")
L1, L2, L3, L4, L5 = lit("p", "q"), lit("p"), lit("p", "r"), lit(1, 2), lit(1, "p")
N1, N2 = st("N", ("k", INT)), st("N", ("k", STR))
S = [st("S", ("a", INT)), st("S", ("a", INT, "1")), st("S", ("a", INT, "2")), st("S", ("a", FLOAT)), st("S", ("a", INT), ("b", STR)), st("S", ("a", INT), ("b", STR, '"x"')), st("S", ("a", INT), ("n", N1)),
     st("S", ("a", INT), ("n", N2)), st("S", ("a", opt(INT))), st("S", ("a", opt(INT), "None")), st("S", ("b", STR, '"x"')), st("S", ("e", E1, "E.A")), st("S", ("e", E1, "E.B")), st("S", ("l", lst(INT), "[]")), st("S"), st("T", ("a", INT))]
T1, T2 = st("T", ("z", FLOAT)), st("T", ("z", STR))
BASE = [INT, STR, BOOL, FLOAT, E1, E2, E3, E4, E5, E6, F1, L1, L2, L3, L4, L5] + S
IN = [INT, FLOAT, STR, E1, E2, L1, L2, S[0], S[1], S[3], S[4], S[5]]
CONT = [f(t) for t in IN for f in (opt, lst, dct)] + [idct(INT), idct(FLOAT), tup(INT), tup(INT, STR), tup(FLOAT, STR), tup(INT, STR, INT), tup(S[0], INT), tup(S[5], INT), tup(E1, INT), tup(E2, INT)]
DEEP = [lst(lst(INT)), lst(opt(INT)), opt(lst(INT)), opt(lst(FLOAT)), dct(lst(INT)), dct(opt(INT)), opt(dct(INT)), lst(dct(FLOAT)), lst(tup(INT, INT)), opt(tup(INT, STR)), lst(opt(S[0])), dct(lst(S[5]))]
UN = [union(lst(INT), dct(INT)), union(lst(FLOAT), dct(INT)), union(dct(INT), lst(INT)), union(lst(INT), dct(INT), S[0]), union(S[0], T1), union(S[4], T1), union(S[0], T2), union(S[0], lst(INT)), lst(union(S[0], T1))]


def meaning(t):
    """types with the same meaning describe the same documents and the same defaults"""
    if t.op == "struct":
        return ("struct", tuple(sorted((n, meaning(x), d) for n, x, d in t.args[1])))
    if t.op == "enum":
        return ("enum", tuple(sorted(t.args[1], key=repr)))
    if t.op == "lit":
        return ("lit", tuple(sorted(map(repr, t.args))))
    if t.op == "union":
        return ("union", tuple(sorted(repr((x.args[0] if x.op == "struct" else "", meaning(x))) for x in t.args)))
    return (t.op,) + tuple(meaning(a) for a in t.args)


def added_defaults(a, b):
    """is b the type a but for defaults that a lacks?"""
    if a.op != b.op:
        return False
    if a.op == "struct":
        fb = {n: (x, d) for n, x, d in b.args[1]}
        return set(fb) == {n for n, _, _ in a.args[1]} and all(added_defaults(x, fb[n][0]) and (d is None or d == fb[n][1]) for n, x, d in a.args[1])
    if any(isinstance(x, Ty) for x in a.args):
        return len(a.args) == len(b.args) and all(added_defaults(x, y) for x, y in zip(a.args, b.args))
    return meaning(a) == meaning(b)


def kept(run, a, b, mod):
    """does the loaded plain value b contain everything of the plain value a?  True, False or None, with the place"""
    a, b = run.bind_lit(run.deref(a)), run.bind_lit(run.deref(b))
    if isinstance(a, Dict) and isinstance(b, Dict):
        r = True
        for k, (kt, v) in a.entries.items():
            if v is Dict.TOMB:
                continue
            m = k if k in b.entries else next((q for q in b.entries if same(run, k, q)), None)
            x = False if m is None else kept(run, v, b.entries[m][1], mod)
            if x is False:
                return False
            r = r and x
        return r
    ia, ib = items(a), items(b)
    if ia is not None and ib is not None:
        rs = [kept(run, x, y, mod) for x, y in zip(ia, ib)]
        return False if len(ia) != len(ib) or False in rs else None if None in rs else True
    x = same(run, a, b)
    if x is not True:
        if run.kinds(a) == frozenset(["int"]) and run.freeze(b) is run.freeze(call(run, mod + ".real", a)):
            return True
    return x


def run(ck):
    ck.mods = {}
    ts = BASE + CONT + DEEP + UN
    if not ck.thorough:
        ts = BASE + [t for i, t in enumerate(CONT) if i % 2 == 0 or t.op in ("tuple", "idict")] + DEEP + UN
    for t in ts:
        mod(ck, st("Cfg", ("x", t)))
    cat = catalogue(ck.thorough)
    for _, o, n, _, _, _ in cat:
        mod(ck, o), mod(ck, n)
    jobs = []
    for a in ts:
        jobs.append(lambda ck, a=a: [pair(ck, a, b) for b in ts])
    for i in range(0, len(cat), 8):
        jobs.append(lambda ck, i=i: [edit(ck, *c) for c in cat[i:i + 8]])
    for lab, t, text in SYMBOLIC:
        for nested in (False, True):
            for name in ("OLD", "NEW"):
                f = ("b", t, text % name)
                mod(ck, st("Cfg", f) if not nested else st("Cfg", ("o", st("Out", ("c", INT), f))))
            jobs.append(lambda ck, a=(lab, t, text, nested): symbolic(ck, *a))
    for a, b in VERDICTS:
        mod(ck, a), mod(ck, b)
        jobs.append(lambda ck, a=a, b=b: verdict(ck, a, b))
    ck.map(jobs)
    ck.need(len(ts) // 2, R1)
    ck.need(100, R2)
    ck.need(3, R3)
    ck.need(1000, R4)
    ck.need(len(cat) // 2, R5)
    ck.need(3, R6)


def mod(ck, root):
    m = ck.mods.get(root)
    if m is None:
        m = ck.mods[root] = "m%d" % len(ck.mods)
        client_src(ck, m, schemas.module(root, X))
    return m


WHERE = "hyperstate/schema/schema_checker.py (hyperstate.schema.schema_checker.SchemaChecker)"


def changes(run, seq):
    out = []
    for c in seq.items:
        out.append((c.cls.name.split(".")[-1], [x.a[0] if is_c(x) else show(x) for x in items(run.deref(c.d.entries[C("field")][1]))], c))
    return out


def brief(cs):
    return ", ".join("%s at %s" % (k, ".".join(map(str, p))) for k, p, _ in cs) or "nothing"


def level(run, sev):
    return run.getattr_(sev, "name").a[0]


def pair(ck, a, b):
    ra, rb = st("Cfg", ("x", a)), st("Cfg", ("x", b))
    mo, mn = mod(ck, ra), mod(ck, rb)
    inst = "%r -> %r" % (a, b)
    verdict = []

    def entry(run):
        r, err = attempt(lambda: call(run, mn + ".check_sub", call(run, mo + ".schema"), C("x")))
        if err is not None:
            return ck.ob(R4, inst, None if opaque_facts(run) else False, "comparing the schemas fails: %s" % exc_text(run, err), loc(err.loc), ctx(run))
        sev, cs, sub = items(r)
        cs = changes(run, cs)
        sev = level(run, sev)
        verdict.append((sev, run.truth(sub)))
        if a == b:
            ck.ob(R1, repr(a), not cs and sev == "INFO", "%s is reported for identical schemas" % brief(cs), WHERE, ctx(run))
        elif meaning(a) != meaning(b) and not added_defaults(a, b):
            ck.ob(R4, inst, bool(cs), "no change is reported", WHERE, ctx(run))
    ck.explore(entry, Opts(faults=False, max_paths=50))
    for what, hit in ((R2, any(s == "INFO" for s, _ in verdict)), (R3, a != b and any(s for _, s in verdict) and not all(s == "INFO" for s, _ in verdict))):
        if hit:
            loads(ck, what, inst, ra, mo, mn)


def loads(ck, rule, inst, root, mo, mn):
    def entry(run):
        g = Values(run, mo)
        v = g.construct(root, run.lookup(mo + ".Cfg"))
        elide = run.choose("elide", 2)
        want = call(run, mo + ".plain", v)
        text = call(run, mo + ".dump", v, TRUE if elide else FALSE)
        got, err = attempt(lambda: call(run, mn + ".read", text))
        how = "%s, dumped with the old schema%s," % (sh(run, v), " without defaults" if elide else "")
        if err is not None:
            return ck.ob(rule, inst, None if opaque_facts(run) else False, "%s cannot be loaded: %s" % (how, exc_text(run, err)), WHERE, ctx(run))
        back = call(run, mn + ".plain", got)
        ok = kept(run, want, back, mn)
        ck.ob(rule, inst, ok, "%s is loaded as %s" % (how, sh(run, got)), WHERE, ctx(run))
    ck.explore(entry, Opts(faults=False, max_paths=200))


def sh(run, v):
    try:
        return show(run.freeze(v))[:160]
    except Exception:
        return repr(v)[:160]


# -- edits -------------------------------------------------------------------------------------
def ch(kind, sub="", **attrs):
    """an expected change: its kind, the path below the edited field, its attributes; fix: class of the proposed rule"""
    return (kind, tuple(sub.split(".")) if sub else (), attrs)


ADD, DEL, REN, MAP, CHG, DEF, CHK, REJ = "FieldAdded", "FieldRemoved", "FieldRenamed", "EnumVariantValueChanged", "DefaultValueChanged", "DefaultValueRemoved", "CheckValue", "RejectValues"
TY = "TypeChanged"


def type_edits():
    """(old, new, expected changes, severity): edits of the type of a field that keep it a struct or a non-struct"""
    out = [(INT, STR, [ch(TY)], "ERROR"), (STR, INT, [ch(TY)], "ERROR"), (BOOL, INT, [ch(TY)], "ERROR"), (INT, BOOL, [ch(TY)], "ERROR"), (STR, FLOAT, [ch(TY)], "ERROR"),
           (INT, FLOAT, [ch(TY)], "INFO"), (lst(INT), dct(INT), [ch(TY)], "ERROR"), (lst(INT), tup(INT, INT), [ch(TY)], "ERROR"),
           (tup(INT, STR), tup(INT), [ch(TY)], "ERROR"), (tup(INT), tup(INT, STR), [ch(TY)], "ERROR"), (tup(INT, STR), tup(STR, INT), [ch(TY), ch(TY)], "ERROR"), (tup(INT, INT), tup(INT, FLOAT), [ch(TY)], "INFO"),
           (tup(INT, INT), tup(FLOAT, STR), [ch(TY), ch(TY)], "ERROR"), (dct(INT), idct(INT), [ch(TY)], "ERROR"), (dct(INT), dct(STR), [ch(TY)], "ERROR"), (dct(INT), dct(FLOAT), [ch(TY)], "INFO"),
           (lst(lst(INT)), lst(lst(STR)), [ch(TY)], "ERROR"), (lst(INT), lst(opt(INT)), [ch(TY)], "INFO"), (lst(opt(INT)), lst(INT), [ch(TY)], "ERROR"),
           (INT, lst(INT), [ch(TY, fix="wrap")], "WARN"), (STR, lst(STR), [ch(TY, fix="wrap")], "WARN"), (INT, lst(STR), [ch(TY)], "ERROR"), (lst(INT), INT, [ch(TY)], "ERROR"),
           (STR, L1, [ch(TY, fix=("allowed", ["p", "q"]))], "WARN"), (L1, STR, [ch(TY)], "INFO"), (L4, INT, [ch(TY)], "INFO"), (L4, STR, [ch(TY)], "ERROR"), (L5, INT, [ch(TY)], "ERROR"), (L5, STR, [ch(TY)], "ERROR"), (INT, E5, [ch(TY)], "ERROR"),
           (E1, STR, [ch(TY)], "ERROR"), (union(lst(INT), dct(INT)), union(lst(INT), dct(STR)), [ch(TY)], "ERROR"), (union(lst(INT), dct(INT)), union(lst(INT), dct(INT), S[0]), [ch(TY)], ("INFO", "ERROR")),
           (union(lst(INT), dct(INT), S[0]), union(lst(INT), dct(INT)), [ch(TY)], "ERROR"), (union(S[0], T1), union(S[4], T1), [ch(ADD, "b", has_default=False)], "ERROR"),
           (union(S[0], lst(INT)), union(T1, lst(INT)), [ch(TY)], "ERROR"),
           (union(lst(INT), dct(INT)), union(lst(STR), dct(STR)), [ch(TY), ch(TY)], "ERROR"), (idct(INT), opt(dct(INT)), [ch(TY)], "ERROR"), (dct(INT), opt(dct(STR)), [ch(TY)], "ERROR"), (lst(INT), opt(lst(STR)), [ch(TY)], "ERROR"),
           (lst(INT), opt(lst(FLOAT)), [ch(TY)], "INFO"), (tup(INT, STR), opt(tup(INT)), [ch(TY)], "ERROR"), (E1, opt(E2), [ch(TY)], "ERROR"), (E2, opt(E1), [ch(TY)], "INFO"), (E1, opt(E4), [ch(TY)], "ERROR"),
           # enums
           (E2, E1, [ch("EnumVariantAdded", enum_name="E", variant="B", variant_value="b")], "INFO"), (E1, E2, [ch("EnumVariantRemoved", enum_name="E", variant="B", variant_value="b")], "ERROR"),
           (E1, E3, [ch("EnumVariantRenamed", enum_name="E", old_variant_name="B", new_variant_name="AB")], "INFO"),
           (E1, E4, [ch(MAP, enum_name="E", variant="B", old_value="b", new_value="z", fix=("map", "b", "z"))], "WARN"),
           (E1, enum("E", A="a", AB="z"), [ch(MAP, enum_name="E", variant="B", old_value="b", new_value="z", fix=("map", "b", "z"))], "WARN"),
           (E1, enum("E", A="z", B="b"), [ch(MAP, enum_name="E", variant="A", old_value="a", new_value="z", fix=("map", "a", "z"))], "WARN"),
           (E1, enum("E", A="y", B="z"), [ch(MAP, variant="A", old_value="a", new_value="y"), ch(MAP, variant="B", old_value="b", new_value="z")], "WARN"),
           (E6, E2, [ch("EnumVariantRemoved", variant="B", variant_value="b"), ch("EnumVariantRemoved", variant="C", variant_value="c")], "ERROR"),
           (E2, E6, [ch("EnumVariantAdded", variant="B", variant_value="b"), ch("EnumVariantAdded", variant="C", variant_value="c")], "INFO"),
           (E5, enum("E", A=1, B=3), [ch(MAP, variant="B", old_value=2, new_value=3, fix=("map", 2, 3))], "WARN"),
           (enum("E", A="a", B="b"), enum("E", A="b", B="a"), [ch(MAP, variant="A", old_value="a", new_value="b"), ch(MAP, variant="B", old_value="b", new_value="a")], "WARN"),
           # literals
           (L2, L1, [ch("LiteralValuesAdded", values=["q"])], "INFO"), (L1, L2, [ch("LiteralValuesRemoved", values=["q"], fix=("rejected", ["q"]))], "WARN"),
           (L1, L3, [ch("LiteralValuesAdded", values=["r"]), ch("LiteralValuesRemoved", values=["q"], fix=("rejected", ["q"]))], "WARN"), (lit("p", "q"), lit("q", "p"), [], "INFO"), (lit(1, 2, 3), lit(3), [ch("LiteralValuesRemoved", values=[1, 2])], "WARN")]
    # optional
    for t in (INT, STR, lst(INT), dct(INT), E1, L1, tup(INT, STR)):
        out.append((t, opt(t), [ch(TY)], "INFO"))
        out.append((opt(t), t, [ch(TY, fix=("allowed", ["p", "q"])) if t is L1 else ch(TY)], "WARN" if t is L1 else "ERROR"))
    return out


def struct_edits():
    """edits of the fields of a struct (old, new, expected, severity)"""
    a = ("a", INT)
    out = [(st("S", a), st("S", a, ("b", STR, '"x"')), [ch(ADD, "b", has_default=True, default="x")], "INFO"),
           (st("S", a), st("S", a, ("b", STR)), [ch(ADD, "b", has_default=False)], "ERROR"),
           (st("S", a), st("S", a, ("b", opt(STR))), [ch(ADD, "b", has_default=False, fix=("default", None))], "WARN"),
           (st("S", a), st("S", a, ("b", lst(STR))), [ch(ADD, "b", has_default=False, fix=("default", []))], "WARN"),
           (st("S", a), st("S", a, ("b", opt(STR), "None")), [ch(ADD, "b", has_default=True, default=None)], "INFO"),
           (st("S", a), st("S", a, ("b", INT, "0")), [ch(ADD, "b", has_default=True, default=0)], "INFO"),
           (st("S", a, ("b", STR)), st("S", a), [ch(DEL, "b", fix=("delete",))], "WARN"),
           (st("S", a, ("b", STR, '"x"')), st("S", a), [ch(DEL, "b", fix=("delete",))], "WARN"),
           (st("S", a, ("n", N1)), st("S", a), [ch(DEL, "n.k", fix=("delete",))], "WARN"),
           (st("S", a), st("S", a, ("n", N1)), [ch(ADD, "n.k", has_default=False)], "ERROR"),
           (st("S", a), st("S", a, ("n", st("N", ("k", INT, "3")))), [ch(ADD, "n.k", has_default=True, default=3)], "INFO"),
           (st("S", a, ("n", st("N", ("m", st("M", ("k", INT), ("j", STR)))))), st("S", a), [ch(DEL, "n.m.k", fix=("delete",)), ch(DEL, "n.m.j", fix=("delete",))], "WARN"),
           (st("S", a), st("S", a, ("n", st("N", ("m", st("M", ("k", INT, "1"), ("j", BOOL)))))), [ch(ADD, "n.m.k", has_default=True), ch(ADD, "n.m.j", has_default=False)], "ERROR"),
           (st("S", a, ("n", N1)), st("S", a, ("n", N2)), [ch(TY, "n.k")], "ERROR"),
           (st("S", a, ("n", N1)), st("S", a, ("n", BOOL)), [ch(DEL, "n.k"), ch(ADD, "n", has_default=False)], "ERROR"),
           (st("S", a, ("n", BOOL)), st("S", a, ("n", N1)), [ch(DEL, "n"), ch(ADD, "n.k", has_default=False)], "ERROR"),
           (st("S", a, ("n", lst(N1))), st("S", a, ("n", lst(N2))), [ch(TY, "n.k")], "ERROR"),
           (st("S", a, ("n", st("N"))), st("S", a), [ch(DEL, "n", fix=("delete",))], "WARN"),
           (st("S", a, ("b", STR), ("c", BOOL)), st("S", a, ("b", INT), ("c", STR)), [ch(TY, "b"), ch(TY, "c")], "ERROR"),
           (st("S", a, ("b", STR, '"x"')), st("S", a, ("b", INT, "1")), [ch(TY, "b"), ch(CHG, "b", old="x", new=1)], "ERROR"),
           (st("S", a, ("b", STR), ("c", BOOL)), st("S", ("c", BOOL), ("b", STR), a), [], "INFO"),
           (st("S", ("e", E1), ("f", lst(E1))), st("S", ("e", E2), ("f", lst(E2))), [ch("EnumVariantRemoved", "e", variant="B"), ch("EnumVariantRemoved", "f", variant="B")], "ERROR"),
           (st("S", ("e", E1), ("f", F1)), st("S", ("e", E2), ("f", F1)), [ch("EnumVariantRemoved", "e", variant="B")], "ERROR")]
    out += [(st("S", a, ("long_name", BOOL)), st("S", a, ("longname", BOOL)), [ch(REN, "long_name", to="longname")], "WARN"),
            (st("S", a, ("learning_rate", FLOAT, "0.5")), st("S", a, ("lr", FLOAT, "0.5")), [ch(REN, "learning_rate", to="lr")], "WARN"),
            (st("S", a, ("cost", BOOL)), st("S", a, ("n", st("N", ("cost", BOOL)))), [ch(REN, "cost", to="n.cost")], "WARN"),
            (st("S", a, ("cost", BOOL)), st("S", a, ("costs", STR)), [ch(DEL, "cost"), ch(ADD, "costs", has_default=False)], "ERROR"),
            (st("S", a, ("cost", FLOAT, "1.0")), st("S", a, ("costs", FLOAT, "2.0")), [ch(DEL, "cost", has_default=True, default=1.0), ch(ADD, "costs", has_default=True, default=2.0)], "WARN"),
            (st("S", a, ("cost", FLOAT)), st("S", a, ("costs", INT)), [ch(DEL, "cost"), ch(ADD, "costs", has_default=False)], "ERROR"), (st("S", a, ("cost", opt(STR))), st("S", a, ("costs", STR)), [ch(DEL, "cost"), ch(ADD, "costs", has_default=False)], "ERROR"),
            (st("S", a, ("cost", FLOAT, "1.0")), st("S", a, ("costs", FLOAT)), [ch(DEL, "cost"), ch(ADD, "costs", has_default=False)], "ERROR"),
            (st("S", a, ("cost", FLOAT)), st("S", a, ("costs", FLOAT, "1.0")), [ch(DEL, "cost"), ch(ADD, "costs", has_default=True)], "WARN"),
            (st("S", a, ("abc", BOOL), ("uvw", BOOL)), st("S", a, ("abcd", BOOL), ("uvwx", BOOL)), [ch(REN, "abc", to="abcd"), ch(REN, "uvw", to="uvwx")], "WARN"),
            (st("S", a, ("abc", BOOL)), st("S", a, ("abcd", BOOL), ("uvw", STR)), [ch(REN, "abc", to="abcd"), ch(ADD, "uvw", has_default=False)], "ERROR")]
    # fields that move to another struct, with or without further changes
    def at(place, f):
        k = [("k", BOOL)]
        return st("S", a, ("n", st("N", *k + [f] * (place == "n"))), ("m", st("M", *k + [f] * (place == "m"))), *[f] * (place == ""))

    def sub(place, name):
        return ".".join(filter(None, (place, name)))
    for x, y in (("", "n"), ("n", ""), ("n", "m"), ("n", "n"), ("", "")):
        for n2 in ("size", "sizes"):
            if (x, n2) == (y, "size"):
                continue
            for t1, d1, t2, d2 in ((INT, None, INT, None), (INT, "3", INT, "3"), (INT, "3", INT, "4"), (INT, "3", INT, None), (INT, None, INT, "3"), (INT, "3", STR, '"3"'), (INT, None, FLOAT, None), (FLOAT, None, INT, None), (opt(INT), "None", opt(INT), "None"),
                                   (INT, "0", opt(INT), "None"), (opt(INT), "None", opt(INT), None)):
                val = lambda d: None if d is None else eval(d)
                same_ = d1 == d2 and (repr(t1) == repr(t2) or (t1, t2) == (INT, FLOAT))
                w = [ch(REN, sub(x, "size"), to=sub(y, n2))] if same_ else [ch(DEL, sub(x, "size"), has_default=d1 is not None, default=val(d1)), ch(ADD, sub(y, n2), has_default=d2 is not None, default=val(d2))]
                out.append((at(x, ("size", t1) + ((d1,) if d1 else ())), at(y, (n2, t2) + ((d2,) if d2 else ())), w, "WARN" if same_ or d2 or t2.op == "opt" else "ERROR"))
    # defaults
    for t, d1, d2, v1, v2 in ((INT, "1", "2", 1, 2), (STR, '"p"', '""', "p", ""), (BOOL, "True", "False", True, False), (opt(INT), "None", "0", None, 0), (FLOAT, "0.5", "0.25", 0.5, 0.25), (E1, "E.A", "E.B", "a", "b"), (L1, '"p"', '"q"', "p", "q"),
                              (lst(INT), "[]", "[1]", [], [1]), (dct(INT), "{}", '{"k": 1}', ANY, ANY), (tup(INT, INT), "(1, 2)", "(1, 3)", ANY, ANY), (opt(STR), '"x"', "None", "x", None), (lst(E1), "[E.A]", "[E.B]", ANY, ANY),
                              (opt(N1), "N(1)", "N(2)", ANY, ANY), (N1, "N(1)", "N(2)", ANY, ANY), (lst(N1), "[N(1)]", "[N(2)]", ANY, ANY)):
        out += [(st("S", ("b", t, d1)), st("S", ("b", t, d2)), [ch(CHG, "b", old=v1, new=v2, fix=("change", v1, v2))], "WARN"),
                (st("S", ("b", t, d1)), st("S", ("b", t)), [ch(DEF, "b", old=v1, fix=("default", v1))], "WARN"),
                (st("S", ("b", t)), st("S", ("b", t, d1)), [], "INFO"),
                (st("S", ("b", t, d2)), st("S", ("b", t, d2)), [], "INFO")]
    return out


class Any:
    def __repr__(self):
        return "..."


ANY = Any()


def places(t, struct, deep):
    """(label, config fields with the type at a path, path)"""
    yield "field", st("Cfg", ("u", STR), ("x", t)), ("x",)
    yield "nested", st("Cfg", ("o", st("Out", ("x", t), ("v", INT, "4")))), ("o", "x")
    yield "list", st("Cfg", ("x", lst(t))), ("x",)
    yield "list of nested", st("Cfg", ("o", lst(st("Out", ("x", t))))), ("o", "x")
    yield "dict", st("Cfg", ("x", dct(t)), ("w", BOOL, "True")), ("x",)
    if t.op not in ("opt", "union"):
        yield "optional", st("Cfg", ("x", opt(t))), ("x",)
    yield "tuple", st("Cfg", ("x", tup(STR, t))), ("x",)
    if deep:
        yield "optional nested", st("Cfg", ("o", opt(st("Out", ("x", t))))), ("o", "x")
        yield "doubly nested", st("Cfg", ("q", st("Q", ("o", st("Out", ("u", INT), ("x", t)))))), ("q", "o", "x")
        yield "list of dicts", st("Cfg", ("x", lst(dct(t)))), ("x",)
        yield "first of a tuple", st("Cfg", ("x", tup(t, STR))), ("x",)
    if not (struct or t.op == "union" or t.op == "opt"):
        yield "union", st("Cfg", ("x", union(lst(t), dct(INT)))), ("x",)


def catalogue(deep):
    """(label, old config, new config, path, expected, severity)"""
    out = []
    for o, n, want, sev in type_edits():
        for (lab, a, p), (lab2, b, _) in pairs(o, n, deep):
            out.append(("%r -> %r, %s" % (o, n, lab), a, b, p, want, sev))
    for o, n, want, sev in struct_edits():
        for (lab, a, p), (lab2, b, _) in pairs(o, n, deep, True):
            out.append(("%r -> %r, %s" % (o, n, lab), a, b, p, want, sev))
    # the edited struct is the config itself
    for o, n, want, sev in struct_edits():
        out.append(("%r -> %r, config" % (o, n), st("Cfg", *o.args[1]), st("Cfg", *n.args[1]), (), want, sev))
    return out


def pairs(o, n, deep, struct=False):
    pa, pb = {x[0]: x for x in places(o, struct, deep)}, {x[0]: x for x in places(n, struct, deep)}
    return [(pa[k], pb[k]) for k in pa if k in pb]


def value(run, v):
    """plain python value of an abstract one, for comparison; ANY if it is not constant"""
    v = run.bind_lit(run.deref(v))
    if is_c(v):
        return v.a[0]
    it = items(v)
    if it is not None:
        return [value(run, x) for x in it]
    return ANY


def agree(got, want):
    if got is ANY or want is ANY:
        return True
    if isinstance(got, (list, tuple)) and isinstance(want, (list, tuple)):
        return len(got) == len(want) and all(agree(x, y) for x, y in zip(got, want))
    return type(got) is type(want) and got == want


def edit(ck, label, old, new, path, want, sev):
    mo, mn = mod(ck, old), mod(ck, new)

    def entry(run):
        r, err = attempt(lambda: call(run, mn + ".check", call(run, mo + ".schema")))
        if err is not None:
            return ck.ob(R5, label, None if opaque_facts(run) else False, "comparing the schemas fails: %s" % exc_text(run, err), loc(err.loc), ctx(run))
        s, cs, fixes = items(r)
        cs, s = changes(run, cs), level(run, s)
        why = compare(run, cs, [(k, path + sub, at) for k, sub, at in want], path, items(fixes))
        if why is None and s not in ((sev,) if isinstance(sev, str) else sev):
            why = "the severity is %s, expected %s, for %s" % (s, sev, brief(cs))
        ck.ob(R5, label, why is None, why or "", WHERE, ctx(run))
    ck.explore(entry, Opts(faults=False, max_paths=50))


def compare(run, cs, want, base, fixes):
    left = list(cs)
    for kind, p, at in want:
        hit = [c for c in left if c[0] == kind and tuple(c[1]) == p]
        best = None
        for c in hit:
            best = wrong(run, c, at, base)
            if best is None:
                left.remove(c)
                break
        else:
            return "%s at %s is not reported%s (reported: %s)" % (kind, ".".join(p), " with %s" % best if best else "", brief(cs))
    if left:
        return "%s is reported although only %s changed" % (brief(left), ", ".join(".".join(p) for _, p, _ in want) or "nothing")
    return None


def wrong(run, c, at, base):
    """what is not as expected with a reported change"""
    kind, p, inst = c
    fix = run.deref(run.call(run.getattr_(inst, "proposed_fix"), [], {}))
    for k, v in at.items():
        if k == "fix":
            w = wrong_fix(run, fix, v, p)
            if w:
                return w
            continue
        if k == "to":
            got, v = value(run, run.getattr_(inst, "new_name")), list(base) + v.split(".")
        else:
            got = value(run, run.getattr_(inst, k))
        if k == "values":
            got, v = sorted(got, key=repr) if isinstance(got, list) else got, sorted(v, key=repr)
        if not agree(got, v):
            return "%s %r (it is %r)" % (k, v, got)
    s = level(run, run.call(run.getattr_(inst, "severity"), [], {}))
    if s == "WARN" and not isinstance(fix, Inst):
        return "a proposed rule"
    return None


def wrong_fix(run, fix, want, p):
    if not isinstance(fix, Inst):
        return "a proposed rule (it is %r)" % (fix,)
    name = fix.cls.name.split(".")[-1]
    if value(run, run.getattr_(fix, "field")) != list(p):
        return "a rule for its field (it is for %r)" % (value(run, run.getattr_(fix, "field")),)

    def att(k):
        return value(run, run.getattr_(fix, k))

    def mapped(x):
        return value(run, run.call(run.getattr_(fix, "map_fn"), [x], {}))
    if want == "wrap":
        s = run.sym("anything", {"int"})
        got = run.deref(run.call(run.getattr_(fix, "map_fn"), [s], {})) if name == "MapFieldValue" else None
        return None if got is not None and items(got) is not None and len(items(got)) == 1 and same(run, items(got)[0], s) else "a rule that makes a list of the value"
    if want[0] == "map":
        ok = name == "MapFieldValue" and mapped(C(want[1])) == want[2] and mapped(C(want[2])) == want[2] and mapped(C("other")) == "other"
        return None if ok else "a rule that maps %r to %r only" % want[1:]
    if want[0] == "delete":
        return None if name == "DeleteField" else "a rule that deletes the field"
    if want[0] == "default":
        return None if name == "AddDefault" and agree(att("default"), want[1]) else "a rule that adds the default %r" % (want[1],)
    if want[0] == "change":
        return None if name == "ChangeDefault" and agree(att("old_default"), want[1]) and agree(att("new_default"), want[2]) else "a rule that changes the default from %r to %r" % want[1:]
    if want[0] == "allowed":
        return None if name == "CheckValue" and sorted(att("allowed_values"), key=repr) == want[1] else "a rule that allows only %r" % want[1]
    if want[0] == "rejected":
        return None if name == "RejectValues" and sorted(att("disallowed_values"), key=repr) == want[1] else "a rule that rejects %r" % want[1]
    raise KeyError(want)


# -- arbitrary defaults ---------------------------------------------------------------------------
SYMBOLIC = [("int", INT, "%s"), ("str", STR, "%s"), ("float", FLOAT, "%s"), ("bool", BOOL, "%s"), ("optional", opt(INT), "%s"), ("element", lst(INT), "[%s]"), ("second element", lst(STR), '["q", %s]'), ("value", dct(INT), '{"k": %s}'), ("key", dct(INT), "{%s: 1}"),
            ("field", N1, "N(%s)"), ("field of an element", lst(N1), "[N(%s)]"), ("field of an optional", opt(N2), "N(%s)"), ("component", tup(STR, INT), '("z", %s)'), ("nested", dct(lst(N1)), '{"k": [N(%s)]}')]
SYM_KIND = {"str": "str", "float": "float", "bool": "bool", "second element": "str", "key": "str", "field of an optional": "str"}


def symbolic(ck, label, t, text, nested):
    def root(name):
        f = ("b", t, text % name)
        return st("Cfg", f) if not nested else st("Cfg", ("o", st("Out", ("c", INT), f)))
    mo, mn = mod(ck, root("OLD")), mod(ck, root("NEW"))
    path = ["o", "b"] if nested else ["b"]
    kind = SYM_KIND.get(label, "int")
    o, n = T("sym", "old default"), T("sym", "new default")

    def entry(run):
        run.sym("old default", {kind})
        run.sym("new default", {kind})
        eq = run.truth(run.call(run.lookup(mn + ".equal"), [o, n], {}))
        r, err = attempt(lambda: call(run, mn + ".check", call(run, mo + ".schema")))
        inst = "default of a %s%s, %s" % (label, " of a nested struct" if nested else "", "equal" if eq else "different")
        if err is not None:
            return ck.ob(R5, inst, None if opaque_facts(run) else False, "comparing the schemas fails: %s" % exc_text(run, err), loc(err.loc), ctx(run))
        sev, cs, fixes = items(r)
        cs = changes(run, cs)
        if eq:
            return ck.ob(R5, inst, not cs, "%s is reported" % brief(cs), WHERE, ctx(run))
        ok = [(k, p) for k, p, _ in cs] == [(CHG, path)] and level(run, sev) == "WARN"
        fix = items(fixes)
        if ok:
            whole = [run.getattr_(cs[0][2], k) for k in ("old", "new")]
            ok = all(any(x is y for x in subterms(run.freeze(w))) for w, y in zip(whole, (o, n)))
            f = run.deref(fix[0]) if len(fix) == 1 else None
            ok = ok and isinstance(f, Inst) and all(any(x is y for x in subterms(run.freeze(run.getattr_(f, w)))) for w, y in (("old_default", o), ("new_default", n)))
        ck.ob(R5, inst, ok, "a change of the default from %s to %s is reported as %s (%s, %d rules)" % (text % "OLD", text % "NEW", brief(cs), level(run, sev), len(fix)), WHERE, ctx(run))
    ck.explore(entry, Opts(faults=False, max_paths=50, globals={mo: {"OLD": o, "NEW": n}, mn: {"OLD": o, "NEW": n}}))


# -- report ------------------------------------------------------------------------------------
VERDICTS = [(st("Cfg", ("x", INT)), st("Cfg", ("x", INT))), (st("Cfg", ("o", st("Out", ("xx", INT)))), st("Cfg", ("o", st("Out", ("xx", FLOAT))))), (st("Cfg", ("o", st("Out", ("xx", INT, "1")))), st("Cfg", ("o", st("Out", ("xx", INT, "2"))))),
            (st("Cfg", ("xx", E2), ("yy", BOOL)), st("Cfg", ("xx", E1), ("yy", STR))), (st("Cfg", ("xx", E1)), st("Cfg", ("xx", E3), ("zzz", INT))), (st("Cfg", ("xx", L1)), st("Cfg", ("xx", L2))),
            (st("Cfg", ("xx", INT)), st("Cfg", ("xx", INT), ("yy", INT, "0"))), (st("Cfg", ("xx", lst(st("Out", ("ab", INT), ("u", STR))))), st("Cfg", ("xx", lst(st("Out", ("abc", INT), ("u", BOOL)))))),
            (st("Cfg", ("ab", lst(INT)), ("u", STR)), st("Cfg", ("abc", lst(INT)), ("u", STR)))]


def verdict(ck, old, new):
    mo, mn = mod(ck, old), mod(ck, new)
    label = "%r -> %r" % (old, new)

    def entry(run):
        s = call(run, mo + ".schema")
        sev, cs, _ = items(call(run, mn + ".check", s))
        cs, sev = changes(run, cs), level(run, sev)
        n = len(run.events)
        got, err = attempt(lambda: call(run, mn + ".report", s))
        if err is not None:
            return ck.ob(R6, label, None if opaque_facts(run) else False, "the report fails: %s" % exc_text(run, err), loc(err.loc), ctx(run))
        text = " ".join(show(run.freeze(a)) for e in run.events[n:] if e.op == "print" for a in e.args)
        good, bad = "Schema compatible" in text, "Schema incompatible" in text
        ck.ob(R6, label, (good, bad) == (sev == "INFO", sev != "INFO"), "the report says %s for %s (%s)" % (text[:200], brief(cs), sev), WHERE, ctx(run))
        for k, p, c in cs:
            ck.ob(R6, label + ", diagnostics", ".".join(p) in text, "the report does not name %s (%s): %s" % (".".join(p), k, text[:200]), WHERE, ctx(run))
    ck.explore(entry, Opts(faults=False, max_paths=50))
