"""Type conformance of loaded values.

For each declared type (to the stated depth) and each kind of document value at that position a document is loaded with arbitrary content.  Every path must end in an exception or in an object whose field
has the declared type (computed structurally from the declaration).  For each pair the expected outcome (accepted, converted or rejected) is tabulated; a value that is accepted as an int
must be the same number as the document's."""
from ..scen import *
from .. import tygen
from ..tygen import Ty

R1, R2, R3, R4 = "C08.conforms", "C08.rejected", "C08.accepted", "C08.same-number"
LEAF = ["int", "float", "str", "bool", "Color", "Level", "Mode", "Lit", "Leaf", "Vers"]
KINDS = ["none", "bool", "int", "float", "str", "numeric", "red", "one", "fast", "p", "list", "tuple", "map", "struct", "leaf", "unit", "emptylist", "emptymap", "unit-tuple", "big", "exponent", "fraction"]
# kinds that must be accepted, and those for which it depends on the content; all others must be rejected
ACCEPT = {"int": {"int", "bool"}, "float": {"float", "int", "bool"}, "str": {"str", "numeric", "red", "fast", "p"}, "bool": {"bool"}, "Color": {"red"}, "Level": {"one"},
          "Mode": {"fast"}, "Lit": {"p"}, "Leaf": {"leaf"}, "Vers": {"vers"}}
DEPENDS = {"int": {"float", "str", "numeric"}, "float": {"str", "numeric"}, "Color": {"str"}, "Level": {"int", "float", "bool"}, "Mode": {"str"}, "Lit": {"str"}}
ACCEPT["int"] |= {"numeric", "one", "big", "exponent"}
ACCEPT["float"] |= {"numeric", "one", "big", "exponent", "fraction"}
ACCEPT["str"] |= {"big", "exponent", "fraction"}


def value(run, kind, n=""):
    s = lambda k: run.sym(k + "value" + n, {k})
    if kind in ("none",):
        return NONE
    if kind in ("bool", "int", "float"):
        return s(kind)
    if kind == "str":
        t = s("str")
        run.facts[T("in", C("@"), t)] = False
        return t
    if kind in ("numeric", "big", "exponent", "fraction"):
        return C({"numeric": "12", "big": "9007199254740993", "exponent": "1e3", "fraction": "1.5"}[kind])
    if kind in ("red", "fast", "p"):
        return C(kind)
    if kind == "one":
        return C(1)
    if kind == "list":
        return Seq("list", [s("int"), s("str")])
    if kind == "tuple":
        return Seq("tuple", [s("int"), s("str"), s("bool")])
    if kind == "unit-tuple":
        return Seq("tuple", [])
    if kind == "emptylist":
        return Seq("list", [])
    if kind == "emptymap":
        return Dict()
    if kind == "map":
        return mkdict([("unknown", s("int"))])
    if kind == "struct":
        return struct("Stuff", [("unknown", s("int"))])
    if kind == "unit":
        return struct("RED", [])
    if kind == "leaf":
        return struct("Leaf", [("a", s("int")), ("b", s("str")), ("c", NONE)])
    if kind == "vers":
        return struct("Vers", [("version", C(3)), ("q", s("int"))])
    raise KeyError(kind)


def conforms(run, t, v):
    """is the abstract value of this type?  True / False / None"""
    v = run.bind_lit(run.deref(v))
    op = t.op
    ks = run.kinds(v)
    if op in ("int", "float", "str", "bool"):
        if ks is None:
            return None
        ok = {"int": {"int", "bool"}}.get(op, {op})
        return True if ks <= ok else False if not ks & ok else None
    if op in ("Color", "Level", "Mode"):
        if isinstance(v, Inst):
            return v.cls is not None and v.cls.name == op
        return False if ks is not None else None
    if op == "Lit":
        if is_c(v):
            return v.a[0] in ("p", "q")
        r = [run.probe(lambda: run.eq(v, C(x))) for x in "pq"]
        return True if True in r else None if None in r and ks is None else False
    if op in ("Leaf", "Vers", "Other"):
        if not isinstance(v, Inst) or v.cls is None or v.cls.name != op:
            return False if not isinstance(v, T) or ks is not None else None
        fs = {"Leaf": [("a", Ty("int")), ("b", Ty("str")), ("c", Ty("opt", Ty("float")))], "Vers": [("q", Ty("int")), ("r", Ty("str"))], "Other": [("z", Ty("float")), ("leaf", Ty("Leaf"))]}[op]
        return every(conforms(run, ft, run.getattr_(v, f)) for f, ft in fs)
    if op == "opt":
        return True if is_c(v) and v.a[0] is None else conforms(run, t.args[0], v)
    if op == "union":
        rs = [conforms(run, a, v) for a in t.args]
        return True if True in rs else None if None in rs else False
    if op == "list":
        if not isinstance(v, Seq) or v.kind != "list":
            return False if not isinstance(v, T) or ks is not None and "list" not in ks else None
        return every(None if isinstance(x, Star) else conforms(run, t.args[0], x) for x in v.items)
    if op == "tuple":
        if not isinstance(v, Seq) or v.kind != "tuple":
            return False if not isinstance(v, T) or ks is not None and "tuple" not in ks else None
        return len(v.items) == len(t.args) and every(conforms(run, a, x) for a, x in zip(t.args, v.items))
    if op in ("dict", "idict"):
        if not isinstance(v, Dict):
            return False if not isinstance(v, T) or ks is not None and "dict" not in ks else None
        return every(conforms(run, t.args[0], x) for _, x in v.entries.values() if x is not Dict.TOMB)
    raise KeyError(op)


def every(rs):
    rs = list(rs)
    return False if False in rs else None if None in rs else True


def expect(t, kind):
    """'yes', 'no' or 'maybe'"""
    op = t.op
    if op == "opt":
        return "yes" if kind in ("none", "unit-tuple") else expect(t.args[0], kind)     # the text layer reads () as null
    if op == "union":
        rs = [expect(a, kind) for a in t.args]
        return "yes" if "yes" in rs else "maybe" if "maybe" in rs else "no"
    if op == "list":
        return {"emptylist": "yes", "list": "maybe"}.get(kind, "no")
    if op == "tuple":
        return {"tuple": "maybe"}.get(kind, "no")
    if op in ("dict", "idict"):
        return {"emptymap": "yes", "map": "maybe", "struct": "maybe", "leaf": "maybe", "unit": "maybe"}.get(kind, "no")
    return "yes" if kind in ACCEPT[op] else "maybe" if kind in DEPENDS.get(op, ()) else "no"


def run(ck):
    leaf = [Ty(x) for x in LEAF]
    ts = leaf + [Ty("opt", x) for x in leaf] + [Ty(c, x) for c in ("list", "dict", "idict") for x in leaf] + [Ty("tuple", x, Ty("int")) for x in leaf] + [
        Ty("tuple", Ty("int"), Ty("str"), Ty("bool")), Ty("tuple", Ty("int")), Ty("union", Ty("list", Ty("int")), Ty("dict", Ty("int"))), Ty("opt", Ty("list", Ty("int"))), Ty("list", Ty("opt", Ty("int")))]
    if ck.thorough:
        ts += [Ty(a, Ty(b, x)) for a in ("opt", "list", "dict") for b in ("list", "dict") for x in leaf]
    client_src(ck, "ty", tygen.module(ts))
    jobs = []
    for i, t in enumerate(ts):
        for kind in KINDS + ["vers"]:
            if kind == "vers" and "Vers" not in repr(t):
                continue
            jobs.append(lambda ck, a=(i, t, kind): one(ck, *a))
    for i, t in enumerate(ts):
        if t.op in ("list", "dict", "tuple") and t.args[0] in leaf:
            jobs += [lambda ck, a=(i, t, kind): inside(ck, *a) for kind in KINDS + ["vers"] if kind != "vers" or t.args[0].op == "Vers"]
    ck.map(jobs)
    for r, n in ((R1, 50), (R2, 100), (R3, 20), (R4, 1)):
        ck.need(n, r)


def load(ck, run, i, t, v, inst, exp, kind):
    where = "hyperstate/serde.py (from_dict)"
    cls = run.lookup("ty.C%d" % i)
    got, err = attempt(lambda: call(run, "hyperstate.loads", cls, document(run, struct("C%d" % i, [("x", v)]))))
    doc = show(run.freeze(v))[:100]
    if err is not None:
        if exp == "yes":
            ck.ob(R3, inst, False, "the value %s is rejected: %s" % (doc, exc_text(run, err)), loc(err.loc), ctx(run))
        else:
            ck.ob(R2, inst, True)
        return None
    x = run.getattr_(got, "x")
    if exp == "no":
        ck.ob(R2, inst, False, "the value %s is accepted as %s" % (doc, show(run.freeze(x))[:100]), where, ctx(run))
    elif exp == "yes":
        ck.ob(R3, inst, True)
    if exp != "no":
        ck.ob(R1, inst, conforms(run, t, x), "the value %s is loaded as %s" % (doc, show(run.freeze(x))[:100]), where, ctx(run))
    return x


def one(ck, i, t, kind):
    inst = "%s from %s" % (t, kind)

    def entry(run):
        v = value(run, kind)
        x = load(ck, run, i, t, v, inst, expect(t, kind), kind)
        if x is not None:
            number(ck, run, t if t.op != "opt" else t.args[0], v, x, inst)

    ck.explore(entry, Opts(faults=False, max_paths=500))


def inside(ck, i, t, kind):
    """the value as element of a container"""
    a = t.args[0]
    inst = "%s with element from %s" % (t, kind)

    def entry(run):
        v = value(run, kind)
        w = Seq("list", [v]) if t.op == "list" else mkdict([("k", v)]) if t.op == "dict" else Seq("tuple", [v, run.sym("second", {"int"})])
        x = load(ck, run, i, t, w, inst, expect(a, kind), kind)
        if x is None:
            return
        x = run.deref(x)
        e = x.entries.get(C("k"), (None, None))[1] if isinstance(x, Dict) else x.items[0] if isinstance(x, Seq) and x.items else None
        if e is None:
            return ck.ob(R1, inst, None if isinstance(x, T) else False, "the element is lost: %s" % show(run.freeze(x))[:100], "hyperstate/serde.py (from_dict)", ctx(run))
        number(ck, run, a, v, e, inst)

    ck.explore(entry, Opts(faults=False, max_paths=500))


def same_text(s, x, op):
    if isinstance(x, str) or op not in ("int", "float"):
        return False
    try:
        return (int(s) if op == "int" and s.isdigit() else float(s)) == x
    except ValueError:
        return False


def number(ck, run, t, v, x, inst):
    """the number or text in the object is the one in the document"""
    if t.op not in ("int", "float", "str", "bool"):
        return
    v, x = run.bind_lit(run.deref(v)), run.bind_lit(run.deref(x))
    vk, xk = run.kinds(v), run.kinds(x)
    if not isinstance(v, T) or not isinstance(x, T):
        return
    f = run.freeze(x)
    if f is run.freeze(v):
        ok = True
    elif is_c(v) and is_c(x):
        ok = v.a[0] == x.a[0] or isinstance(v.a[0], str) and same_text(v.a[0], x.a[0], t.op)
    elif t.op == "int" and vk == {"float"}:
        ok = run.probe(lambda: run.eq(x, v))        # the path must have established int(v) == v
        ok = ok if ok else False
    elif vk == {"str"}:
        # the integer or float named by the text; through a float only if that is known to be integral
        if f.op == "int" and f.a[0] is v or f.op == "float" and f.a[0] is v:
            ok = True
        elif f.op == "int" and isinstance(f.a[0], T) and f.a[0].op == "float" and f.a[0].a[0] is v:
            ok = bool(run.probe(lambda: run.eq(x, f.a[0])))
        else:
            ok = None
    elif t.op == "float" and vk is not None and vk <= {"int", "bool"}:
        ok = True if f.op == "float" and f.a[0] is v else None
    else:
        ok = None
    ck.ob(R4, inst, ok, "the value %s is loaded as %s" % (show(run.freeze(v))[:100], show(f)[:100]), "hyperstate/serde.py (from_dict)", ctx(run))
