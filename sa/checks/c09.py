"""Overrides set exactly the named field.

For each declared type of the overridden field and each text (constants for structured types, an arbitrary text for str and bool fields), placed at the top level, in nested, optional, defaulted and versioned structs, a document
in every state (struct present, null or absent; field present or absent) is loaded with the override.  The result must equal the object loaded without the override in which the field is then assigned the expected value
(tabulated from the declared type); where the text does not denote a value of the type, or the path is not a field, loading must fail on every path."""
from ..scen import *
from .. import tygen

R1, R2, R3, R4 = "C09.sets-exactly", "C09.text-literal", "C09.bool-spelling", "C09.rejected"
# declared type, default, [(text, expression of the expected value, or None if it must be rejected)]
TYPES = [
    ("int", "4", [("5", "5"), ("-3", "-3"), ("7.0", "7"), ("1.5", None), ('"12"', "12"), ("abc", None), ("", None), ("[1]", None), ("None", None), ("1e3", "1000")]),
    ("float", "0.5", [("0.25", "0.25"), ("3", "3.0"), ("1e-3", "0.001"), ("abc", None), ("[1.0]", None), ("None", None), ("-2.5e2", "-250.0")]),
    ("bool", "False", [("true", "True"), ("1", "True"), ("f", "False"), ("yes", None), ("TRUE", None), ("", None)]),
    ("str", '"s"', [("text", '"text"'), ("12", '"12"'), ("", '""'), ("a=b", '"a=b"'), ("a=b=c", '"a=b=c"'), ("None", '"None"'), ("[1]", '"[1]"'), (" x ", '" x "'), ('"q"', "'\"q\"'"), ("a.b", '"a.b"'), ("true", '"true"')]),
    ("Color", "Color.RED", [('"blue"', "Color.BLUE"), ('"green"', None), ("3", None)]),
    ("Level", "Level.LOW", [("2", "Level.HIGH"), ("7", None)]),
    ("Mode", "Mode.FAST", [('"slow"', "Mode.SLOW")]),
    ('Literal["p", "q"]', '"p"', [('"q"', '"q"'), ('"z"', None)]),
    ("Optional[int]", "None", [("5", "5"), ("None", "None"), ("abc", None)]),
    ("Optional[float]", "0.5", [("2", "2.0"), ("None", "None")]),
    ("List[int]", "field(default_factory=list)", [("[1, 2]", "[1, 2]"), ("[]", "[]"), ("3", None), ('["a"]', None)]),
    ("List[str]", "field(default_factory=list)", [('["a", "b"]', '["a", "b"]')]),
    ("Dict[str, int]", "field(default_factory=dict)", [('{"k": 1}', '{"k": 1}'), ("[1]", None)]),
    ("Tuple[int, str]", '(0, "")', [('(1, "b")', '(1, "b")'), ('(1)', None)]),
    ("Leaf", "field(default_factory=lambda: Leaf(9))", [("Leaf(a: 1)", "Leaf(1)"), ('Leaf(a: 1, b: "y", c: 0.5)', 'Leaf(1, "y", 0.5)'), ("Leaf(zz: 1)", None), ("3", None)]),
    ("Optional[Leaf]", "None", [("Leaf(a: 1)", "Leaf(1)"), ("None", "None")]),
    ("List[Leaf]", "field(default_factory=list)", [("[Leaf(a: 1)]", "[Leaf(1)]")]),
    ("Optional[bool]", "None", [("true", "True"), ("None", "None")]),
]
CLS = '''
@dataclass
class In%(i)d:
    x: %(t)s = %(d)s
    keep: int = 4


@dataclass
class Mid%(i)d:
    s: In%(i)d
    k: int = 1
    o: Optional[In%(i)d] = None


@dataclass
class Ver%(i)d(Versioned):
    x: %(t)s = %(d)s
    keep: int = 5

    @classmethod
    def version(clz) -> int:
        return 2

    @classmethod
    def upgrade_rules(clz):
        return {}


@dataclass
class C%(i)d:
    pre: int
    s: In%(i)d
    n: Mid%(i)d
    x: %(t)s = %(d)s
    o: Optional[In%(i)d] = None
    d: In%(i)d = field(default_factory=lambda: In%(i)d(keep=8))
    p: Optional[In%(i)d] = field(default_factory=lambda: In%(i)d(keep=9))
    e: Mid%(i)d = field(default_factory=lambda: Mid%(i)d(In%(i)d(keep=10), 11, In%(i)d(keep=12)))
    v: Ver%(i)d = field(default_factory=lambda: Ver%(i)d(keep=13))
    post: str = "post"


def new%(i)d():
    return In%(i)d()


'''
TAIL = '''
from hyperstate import StateManager


def assign(obj, path, make, value):
    for name in path[:-1]:
        if getattr(obj, name) is None:
            setattr(obj, name, make())
        obj = getattr(obj, name)
    setattr(obj, path[-1], value)


def no_init(config, ctx):
    return None


def managed(cls, path, overrides):
    return StateManager(cls, Small, no_init, init_path=path, overrides=overrides).config


@dataclass
class Small:
    a: int
    b: str = "x"
    c: bool = False
    l: List[Leaf] = field(default_factory=list)
    m: Dict[str, Leaf] = field(default_factory=dict)
    t: Tuple[int, str] = (0, "")
    s: Leaf = field(default_factory=lambda: Leaf(9))
    u: Optional[Leaf] = None
'''
PATHS = ["x", "s.x", "n.s.x", "n.o.x", "o.x", "d.x", "p.x", "e.s.x", "e.o.x", "v.x"]
STATES = ["full", "nofield", "absent", "null"]
NULLABLE = {"n.o.x": "n.o", "o.x": "o", "p.x": "p", "e.o.x": "e.o"}


def source():
    out = [tygen.HEAD]
    for i, (t, d, texts) in enumerate(TYPES):
        out.append(CLS % dict(i=i, t=t, d=d))
        for j, (_, e) in enumerate(texts):
            if e is not None:
                out.append("def want%d_%d():\n    return %s\n\n\n" % (i, j, e))
    return "".join(out) + TAIL


def config_doc(run, i, path, state, xval):
    """the document, with the struct holding the overridden field in the given state"""
    n = [0]
    parent = path.rsplit(".", 1)[0] if "." in path else ""

    def s(kind="int"):
        n[0] += 1
        return run.sym("%s%d" % (kind, n[0]), {kind})

    def st(cls, here, pairs):
        if here == parent and state == "full":
            pairs = pairs + [("x", xval)]
        return struct(cls % i if "%" in cls else cls, pairs)

    def inner(here):
        return st("In%d", here, [("keep", s())])

    def add(pairs, here, v):
        if here == parent and state in ("absent", "null"):
            return pairs + [(here.rsplit(".", 1)[-1], NONE)] if state == "null" else pairs
        return pairs + [(here.rsplit(".", 1)[-1], v)]

    def mid(here):
        return st("Mid%d", here, add(add([("k", s())], here + ".s", inner(here + ".s")), here + ".o", inner(here + ".o")))

    pairs = [("pre", s()), ("post", s("str"))]
    for nme in ("s", "o", "d", "p"):
        pairs = add(pairs, nme, inner(nme))
    for nme in ("n", "e"):
        top = parent.split(".")[0] == nme and state == "absent-all"
        if not top:
            pairs = pairs + [(nme, mid(nme))]
    pairs = add(pairs, "v", st("Ver%d", "v", [("version", C(2)), ("keep", s())]))
    if parent == "" and state == "full":
        pairs.append(("x", xval))
    return struct("C%d" % i, pairs)


def text(key, val):
    return C(key + "=" + val)


def run(ck):
    client_src(ck, "ov", source())
    jobs = []
    for i, (t, d, texts) in enumerate(TYPES):
        for j, (tx, e) in enumerate(texts):
            full = j == 0 or ck.thorough
            for path in (PATHS if full else ["x", "s.x", "o.x"]):
                states = [s for s in STATES + ["absent-all"] if (s != "null" or path in NULLABLE) and (s != "absent-all" or path.startswith(("n.", "e."))) and (s not in ("absent", "null") or "." in path)]
                for state in (states if full else states[:1]):
                    jobs.append(lambda ck, a=(i, j, path, state): one(ck, *a))
    jobs += [lambda ck, a=(k, p): literal(ck, *a) for k in ("str", "bool") for p in ("x", "s.x", "o.x", "e.s.x", "v.x")]
    jobs += [lambda ck, p=p, via=via: unknown(ck, p, via) for p in ("zz", "s.zz", "zz.a", "s.a.zz", "l.a", "m.k", "m.k.a", "t.0", "", ".a", "a.", "s.", "s..a", "c.d", "u.zz", "a.b.c", "A", " a", "version", "s.version") for via in ("loads", "managed")]
    jobs += [lambda ck, o=o, via=via: malformed(ck, o, via) for o in ("a", "", "s.a", "a:1", "s") for via in ("loads", "managed")]
    jobs += [lambda ck, via=via: several(ck, via) for via in ("loads", "file", "managed")]
    ck.map(jobs)
    for r, n in ((R1, 50), (R2, 2), (R3, 2), (R4, 10)):
        ck.need(n, r)


def load(run, cls, doc, overrides, via="loads"):
    ov = Seq("list", [C(o) if isinstance(o, str) else o for o in overrides])
    if via == "loads":
        return call(run, "hyperstate.loads", cls, document(run, doc), overrides=ov)
    d = run.sym("docpath", {"str"})
    run.vfs.setdefault(d, None)
    p = doc_file(run, doc, d)
    if via == "file":
        return call(run, "hyperstate.load", cls, p, overrides=ov)
    return call(run, "ov.managed", cls, p, ov)


def xvalue(run, i):
    """a valid value of the field in the document"""
    t, _, texts = TYPES[i]
    if t in ("int", "float", "bool", "str"):
        return run.sym("docx", {t})
    from ..ron import parse
    return parse(next(tx for tx, e in texts if e is not None))


def one(ck, i, j, path, state):
    t, d, texts = TYPES[i]
    tx, exp = texts[j]
    inst = "%s: %s=%s, %s" % (t, path, tx, state)

    def entry(run):
        cls = run.lookup("ov.C%d" % i)
        doc = lambda: config_doc(run, i, path, state, xvalue(run, i))
        mark = run.mark() if hasattr(run, "mark") else None
        d1, d2 = doc(), doc()
        got, err = attempt(lambda: load(run, cls, d1, [text(path, tx)]))
        if exp is None:
            ck.ob(R4, inst, err is not None, "the override %s=%s of a field of type %s is accepted" % (path, tx, t), "hyperstate/hyperstate.py (OverridesDeserializer)", ctx(run))
            return
        if err is not None:
            ck.ob(R1, inst, False, "loading with the override %s=%s fails: %s" % (path, tx, exc_text(run, err)), loc(err.loc), ctx(run))
            return
        base = load(run, cls, d2, [])
        call(run, "ov.assign", base, Seq("list", [C(x) for x in path.split(".")]), run.lookup("ov.new%d" % i), call(run, "ov.want%d_%d" % (i, j)))
        ck.ob(R1, inst, same(run, got, base), "with the override %s=%s the config is %s, expected %s" % (path, tx, show(run.freeze(got))[:400], show(run.freeze(base))[:400]),
              "hyperstate/hyperstate.py (OverridesDeserializer)", ctx(run))

    ck.explore(entry, Opts(faults=False, max_paths=300))


def literal(ck, kind, path):
    """an arbitrary text for a str or bool field"""
    i = [n for n, x in enumerate(TYPES) if x[0] == kind][0]
    inst = "%s at %s" % (kind, path)

    def entry(run):
        cls = run.lookup("ov.C%d" % i)
        v = run.sym("text", {"str"})
        o = run.binop("+", C(path + "="), v)
        got, err = attempt(lambda: load(run, cls, config_doc(run, i, path, "full", run.sym("docx", {kind})), [o]))
        if err is None:
            x = got
            for n in path.split("."):
                x = run.getattr_(x, n)
        if kind == "str":
            if err is not None:
                return ck.ob(R2, inst, False, "an override of a str field fails: %s" % exc_text(run, err), loc(err.loc), ctx(run))
            return ck.ob(R2, inst, same(run, x, v), "the field is %s" % show(run.freeze(x))[:200], "hyperstate/hyperstate.py (OverridesDeserializer)", ctx(run))
        spelled = [w for w in ("True", "true", "1", "t", "T", "False", "false", "0", "f", "F") if run.probe(lambda: run.eq(v, C(w)))]
        if not spelled:
            ok = err is not None
            what = "the text of the override is none of the documented spellings but accepted"
        else:
            ok = err is None and same(run, x, C(spelled[0][0] in "Tt1"))
            what = "the spelling %s gives %s" % (spelled[0], "an error" if err else show(run.freeze(x))[:100])
        ck.ob(R3, "%s %s" % (inst, spelled[0] if spelled else "other"), ok, what, "hyperstate/hyperstate.py (OverridesDeserializer)", ctx(run))

    ck.explore(entry, Opts(faults=False, max_paths=300))


def small(run):
    leaf = struct("Leaf", [("a", C(1))])
    return struct("Small", [("a", run.sym("a", {"int"})), ("l", Seq("list", [leaf])), ("m", mkdict([("k", leaf)]))])


def unknown(ck, path, via):
    inst = "path %r, %s" % (path, via)

    def entry(run):
        got, err = attempt(lambda: load(run, run.lookup("ov.Small"), small(run), [path + "=1"], via))
        ck.ob(R4, inst, err is not None, "the override of %r, which is not a field, is accepted: %s" % (path, show(run.freeze(got))[:200] if err is None else ""), "hyperstate/hyperstate.py (OverridesDeserializer)", ctx(run))
        got, err = attempt(lambda: load(run, run.lookup("ov.Small"), small(run), ["a=3", path + "=1", "b=x"], via))
        ck.ob(R4, inst + ", among others", err is not None, "the override of %r, which is not a field, is accepted" % path, "hyperstate/hyperstate.py (OverridesDeserializer)", ctx(run))

    ck.explore(entry, Opts(faults=False, max_paths=300))


def malformed(ck, o, via):
    inst = "override %r, %s" % (o, via)

    def entry(run):
        got, err = attempt(lambda: load(run, run.lookup("ov.Small"), small(run), [o], via))
        ck.ob(R4, inst, err is not None, "the malformed override %r is accepted" % o, "hyperstate/hyperstate.py (OverridesDeserializer)", ctx(run))

    ck.explore(entry, Opts(faults=False, max_paths=300))


def several(ck, via):
    """several overrides of different fields"""
    inst = "several overrides, " + via

    def entry(run):
        cls = run.lookup("ov.Small")
        v = run.sym("text", {"str"})
        ovs = ["a=5", run.binop("+", C("b="), v), "s.a=6", "u.a=7", "s.b=8", "c=t", "t=(3, \"z\")", "u.c=0.5"]
        got, err = attempt(lambda: load(run, cls, small(run), ovs, via))
        if err is not None:
            return ck.ob(R1, inst, False, "loading with several overrides fails: %s" % exc_text(run, err), loc(err.loc), ctx(run))
        base = load(run, cls, small(run), [], via)
        for path, val in (("a", C(5)), ("b", v), ("s.a", C(6)), ("u.a", C(7)), ("s.b", C("8")), ("c", C(True)), ("t", Seq("tuple", [C(3), C("z")])), ("u.c", C(0.5))):
            make = run.lookup("ov.Leaf")
            if path == "u.a":
                run.setattr_(base, "u", run.call(make, [C(0)], {}))
            call(run, "ov.assign", base, Seq("list", [C(x) for x in path.split(".")]), make, val)
        ck.ob(R1, inst, same(run, got, base), "the config is %s, expected %s" % (show(run.freeze(got))[:400], show(run.freeze(base))[:400]), "hyperstate/hyperstate.py (OverridesDeserializer)", ctx(run))

    ck.explore(entry, Opts(faults=False, max_paths=300))
