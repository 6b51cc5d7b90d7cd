"""Eliding defaults.

For each kind of field default (constants and factories) and each placement of the dataclass (top level, nested, in a list, a dict, a tuple, an optional) an object with an
arbitrary field value is dumped with elided defaults.  On every path the produced document is inspected: a field is missing exactly if the path has established that its value equals
its default, and present exactly if it has established the opposite; fields without default are always present; the document loads back to an equal object."""
from ..scen import *
from .. import tygen
from ..tygen import Ty

R1, R2, R3 = "C06.elided-iff-default", "C06.loads-back", "C06.object-unchanged"
FIELDS = [("int", "3"), ("int", "0"), ("float", "0.5"), ("str", '"d"'), ("str", '""'), ("bool", "True"), ("bool", "False"), ("Color", "Color.RED"),
          (Ty("opt", Ty("int")), "None"), (Ty("opt", Ty("int")), "4"), (Ty("opt", Ty("Leaf")), "None"),
          (Ty("list", Ty("int")), "field(default_factory=list)"), (Ty("list", Ty("int")), "field(default_factory=lambda: [1, 2])"),
          (Ty("dict", Ty("int")), "field(default_factory=dict)"), (Ty("dict", Ty("int")), 'field(default_factory=lambda: {"k": 1})'),
          ("Leaf", "field(default_factory=lambda: Leaf(1))"), (Ty("tuple", Ty("int"), Ty("int")), "(1, 2)"),
          ("Level", "Level.LOW"), ("Mode", "Mode.FAST")]
# fields without default
FIELDS += [(t, None) for t in ("int", "str", "bool", "float", "Color", "Leaf", Ty("opt", Ty("int")), Ty("opt", Ty("str")), Ty("opt", Ty("Leaf")),
                               Ty("list", Ty("int")), Ty("dict", Ty("int")), Ty("list", Ty("Leaf")), Ty("tuple", Ty("int"), Ty("int")), Ty("opt", Ty("list", Ty("int"))))]
PLACES = ["top", "nested", "list", "dict", "tuple", "optional"]
WRAP = {"nested": "D%d", "list": "List[D%d]", "dict": "Dict[str, D%d]", "tuple": "Tuple[D%d, int]", "optional": "Optional[D%d]"}


def source():
    out = [tygen.HEAD]
    for i, (t, d) in enumerate(FIELDS):
        ts = t if isinstance(t, str) else t.src()
        out.append("@dataclass\nclass D%d:\n    req: int\n    x: %s%s\n    z: int = 9\n\n" % (i, ts, "" if d is None else " = " + d))
        for p, w in WRAP.items():
            out.append("@dataclass\nclass W%d_%s:\n    w: %s\n\n" % (i, p, w % i))
        if d is not None:
            out.append("def default%d():\n    return D%d(0).x\n\n" % (i, i))
    return "\n".join(out)


def find_doc(run, doc, place):
    """the part of the produced document that describes the D object"""
    def fields(d):
        return d.d if isinstance(d, Nt) else d
    d = fields(doc)
    if place == "top":
        return d
    w = d.entries.get(C("w"))
    if w is None:
        return None
    w = run.deref(w[1])
    if place in ("nested", "optional"):
        return fields(w)
    if place in ("list", "tuple"):
        it = items(w)
        return fields(run.deref(it[0])) if it else None
    e = [x for x in w.entries.values() if x[1] is not Dict.TOMB]
    return fields(run.deref(e[0][1])) if e else None


def run(ck):
    client_src(ck, "el", source())
    ck.map([lambda ck, a=(i, p): one(ck, *a) for i in range(len(FIELDS)) for p in PLACES])
    ck.need(40, R1)
    ck.need(40, R2)


def one(ck, i, place):
    t, dsrc = FIELDS[i]
    t = Ty(t) if isinstance(t, str) else t
    inst = "%s%s, %s" % (t, "" if dsrc is None else " = " + dsrc, place)

    def entry(run):
        g = tygen.Gen(run, "el", (0, 1, 2))
        x = g.make(t)
        z, req = g.s("int"), g.s("int")
        o = run.construct(run.lookup("el.D%d" % i), [req, x, z], {})
        v, cls = o, run.lookup("el.D%d" % i)
        if place != "top":
            w = {"nested": lambda: o, "optional": lambda: o, "list": lambda: Seq("list", [o]), "tuple": lambda: Seq("tuple", [o, g.s("int")])}
            if place == "dict":
                d = Dict()
                k = g.key("str")
                d.entries[k] = (k, o)
                wv = d
            else:
                wv = w[place]()
            cls = run.lookup("el.W%d_%s" % (i, place))
            v = run.construct(cls, [wv], {})
        before = run.freeze(v)
        s, err = attempt(lambda: call(run, "hyperstate.dumps", v, elide_defaults=TRUE))
        if err is not None:
            return ck.ob(R1, inst, False, "dumping fails: " + exc_text(run, err), loc(err.loc), ctx(run))
        ck.ob(R3, inst, run.freeze(v) is before, "dumping changed the object", "", ctx(run))
        raw = run.tags.get(("ron", s))
        doc = find_doc(run, raw, place) if raw is not None else None
        if doc is None:
            ck.ob(R1, inst, None if raw is None else False, "the dataclass is missing in the output", "", ctx(run))
        else:
            names = {k.a[0] for k, e in doc.entries.items() if is_c(k) and e[1] is not Dict.TOMB}
            if "req" not in names:
                ck.ob(R1, inst, False, "a field without default is left out", "hyperstate/hyperstate.py (ElideDefaults)", ctx(run))
            fields = [("z", z, C(9))]
            if dsrc is not None:
                fields.append(("x", x, run.call(run.lookup("el.default%d" % i), [], {})))
            else:
                ck.ob(R1, inst, "x" in names, "the field x without default is left out", "hyperstate/hyperstate.py (ElideDefaults)", ctx(run))
            for n, val, dv in fields:
                e = run.probe(lambda: run.eq(val, dv))
                if n in names:
                    ck.ob(R1, inst, {True: False, False: True, None: False}[e],
                          "field %s is written although its value %s equal its default" % (n, "does" if e else "may"), "hyperstate/hyperstate.py (ElideDefaults)", ctx(run))
                else:
                    ck.ob(R1, inst, {True: True, False: False, None: False}[e],
                          "field %s is left out although its value %s from its default" % (n, "differs" if e is False else "may differ"), "hyperstate/hyperstate.py (ElideDefaults)", ctx(run))
        got, err = attempt(lambda: call(run, "hyperstate.loads", cls, s))
        if err is not None:
            return ck.ob(R2, inst, False, "the output does not load: " + exc_text(run, err), loc(err.loc), ctx(run))
        ck.ob(R2, inst, same(run, got, v), "loaded as %s" % show(run.freeze(got))[:200], "", ctx(run))

    ck.explore(entry, Opts(faults=False, max_paths=3000))
