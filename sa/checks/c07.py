"""Unknown, missing and present fields of a document.

A document for a config with nested, optional, defaulted, contained and versioned structs is loaded.  (1) An unknown key with an arbitrary name and value is added at each placement: without
ignore_extra_fields every path must end in an exception that carries the key; with it the loaded object must equal the one loaded without the key.  (2) Every subset of the fields is present:
loading must fail exactly if a field has neither a value nor a default, present values must be the document's, and absent ones the default."""
from ..scen import *
from .. import tygen

R1, R2, R3, R4, R5 = ("C07.unknown-rejected", "C07.unknown-ignored", "C07.present-kept", "C07.default-if-absent", "C07.missing-rejected")
SRC = tygen.HEAD + '''
from hyperstate import StateManager, Lazy


@dataclass
class Sub:
    a: int
    b: str = "x"


@dataclass
class Deep:
    s: Sub
    k: int = 1


@dataclass
class AllDef:
    p: int = 4
    q: List[int] = field(default_factory=list)


@dataclass
class Outer:
    ad: AllDef
    w: float = 0.5


@dataclass
class Cfg:
    r: int
    s: Sub
    n: Deep
    o: Optional[Sub]
    l: List[Sub]
    m: Dict[str, Sub]
    t: Tuple[Sub, int]
    v: Vers
    u: Union[List[Sub], Dict[str, Sub]]
    nl: List[List[Sub]]
    ad: AllDef
    ou: Outer
    d: int = 7
    e: Sub = field(default_factory=lambda: Sub(3))
    f: List[int] = field(default_factory=lambda: [1, 2])


@dataclass
class State(Lazy):
    step: int
    s: Sub


@dataclass
class Small:
    r: int
    d: int = 7
    e: Optional[int] = 8
    z: Optional[str] = None


@dataclass
class Hold:
    h: Small
    y: int = 1


def no_init(config, ctx):
    return State(-1, Sub(-1))


def manager(path, ignore):
    return StateManager(Cfg, State, no_init, init_path=path, ignore_extra_fields=ignore)


def strict_manager(path):
    return StateManager(Cfg, State, no_init, init_path=path)


def config(m):
    return m.config


def state(m):
    return m.state
'''
PLACES = ["top", "s", "n", "n.s", "o", "l", "m", "t", "v", "u", "nl", "ad", "e", "ou", "ou.ad"]
FIELDS = "a b s k p q r n o l m t v u nl ad ou d e f step w".split() + ["version", "!__name__", "!weak ref"]


def document_of(run, place, extra, named):
    """the complete document; `extra` (key, value) is inserted at the place"""
    n = [0]

    def s(kind="int"):
        n[0] += 1
        return run.sym("%s%d" % (kind, n[0]), {kind})

    def st(name, pairs, here):
        if extra is not None and here == place:
            pairs = [pairs[0], extra] + pairs[1:]
        return struct(name, pairs) if named else mkdict(pairs)
    sub = lambda here: st("Sub", [("a", s()), ("b", s("str"))], here)
    key = run.sym("mapkey", {"str"})
    unlike(run, key, ["!weak ref", "!__name__"])
    return st("Cfg", [
        ("r", s()), ("s", sub("s")), ("n", st("Deep", [("s", sub("n.s")), ("k", s())], "n")), ("o", sub("o")), ("l", Seq("list", [sub(""), sub("l")])),
        ("m", mkdict([(key, sub("m"))])), ("t", Seq("tuple", [sub("t"), s()])), ("v", st("Vers", [("version", C(3)), ("q", s()), ("r", s("str"))], "v")),
        ("u", Seq("list", [sub("u")])), ("nl", Seq("list", [Seq("list", [sub("nl")])])), ("ad", st("AllDef", [("p", s())], "ad")),
        ("ou", st("Outer", [("ad", st("AllDef", [("p", s())], "ou.ad"))], "ou")),
        ("d", s()), ("e", sub("e")), ("f", Seq("list", [s()]))], "top")


def unknown(run, kind):
    k = run.sym("unknownkey", {"str"})
    unlike(run, k, FIELDS)
    run.facts[T("eq", k, C(""))] = False
    v = {"number": lambda: run.sym("x", {"int"}), "struct": lambda: struct("Sub", [("a", C(1))]), "map": lambda: mkdict([("a", C(1))]),
         "list": lambda: Seq("list", [C(1)]), "none": lambda: NONE, "text": lambda: run.sym("xs", {"str"})}[kind]()
    return k, v


def run(ck):
    client_src(ck, "uk", SRC)
    jobs = []
    kinds = ["number", "struct", "map", "list", "none", "text"] if ck.thorough else ["number", "map"]
    for place in PLACES:
        for kind in kinds:
            for named in (True, False):
                jobs.append(lambda ck, a=(place, kind, named): added(ck, *a))
    for place in ["top", "s", "n.s"] + (PLACES if ck.thorough else []):
        jobs.append(lambda ck, a=place: managed(ck, a))
    jobs.append(missing)
    for w in range(2):
        jobs.append(lambda ck, w=w: missing_big(ck, w))
    ck.map(jobs)
    for r, n in ((R1, 15), (R2, 15), (R3, 3), (R4, 3), (R5, 1)):
        ck.need(n, r)


def judge_reject(ck, run, inst, got, err, key):
    where = "hyperstate/serde.py (from_dict)"
    if err is None:
        return ck.ob(R1, inst, False, "a document with the unknown field %s is accepted" % show(key), where, ctx(run))
    m = mentions(run, err, key)
    ck.ob(R1, inst, m, "the error does not name the unknown field: " + exc_text(run, err), loc(err.loc), ctx(run))


def judge_ignore(ck, run, inst, got, err, want):
    if err is not None:
        return ck.ob(R2, inst, False, "the extra field is not ignored: " + exc_text(run, err), loc(err.loc), ctx(run))
    ck.ob(R2, inst, same(run, got, want), "with the extra field ignored, the config is %s" % show(run.freeze(got))[:300], "hyperstate/serde.py (from_dict)", ctx(run))


def added(ck, place, kind, named):
    inst = "unknown key at %s (%s, %s)" % (place, kind, "struct" if named else "map")

    def entry(run):
        cls = run.lookup("uk.Cfg")
        mode = run.choose("mode", 3)
        ex = unknown(run, kind)
        t = document(run, document_of(run, place, ex, named))
        if mode == 0:
            got, err = attempt(lambda: call(run, "hyperstate.loads", cls, t))
            return judge_reject(ck, run, inst + ", loads", got, err, ex[0])
        if mode == 1:
            d = directory(run, "dir")
            p = T("join", run.pkey(d), C("f.ron"))
            run.vfs[p] = t
            got, err = attempt(lambda: call(run, "hyperstate.load", cls, T("P", p)))
            return judge_reject(ck, run, inst + ", load", got, err, ex[0])
        got, err = attempt(lambda: call(run, "hyperstate.loads", cls, t, ignore_extra_fields=TRUE))
        want, err2 = attempt(lambda: call(run, "hyperstate.loads", cls, document(run, document_of(run, place, None, named))))
        if err2 is not None:
            return ck.ob(R2, inst, False, "a document without unknown fields is rejected: " + exc_text(run, err2), loc(err2.loc), ctx(run))
        judge_ignore(ck, run, inst, got, err, want)

    ck.explore(entry, Opts(faults=False, max_paths=500))


def managed(ck, place):
    """through the state manager, in the config and in the state file"""
    inst = "unknown key at %s (state manager)" % place

    def entry(run):
        which = run.choose("file", 2)
        mode = run.choose("mode", 3)
        ex = unknown(run, "number")
        d = directory(run, "dir")

        def files(extra):
            run.vfs[T("join", run.pkey(d), C("config.ron"))] = document(run, document_of(run, place, extra if which == 0 else None, True))
            sub = [("a", run.sym("sa", {"int"}))] + ([extra] if extra and which and place == "s" else [])
            st = [("step", run.sym("st", {"int"})), ("s", struct("Sub", sub))] + ([extra] if extra and which and place != "s" else [])
            run.vfs[T("join", run.pkey(d), C("state.ron"))] = document(run, struct("State", st))

        def go(ignore):
            m = call(run, "uk.strict_manager", d) if ignore is None else call(run, "uk.manager", d, ignore)
            return Seq("tuple", [call(run, "uk.config", m), call(run, "uk.state", m)])
        files(ex)
        i = inst + (", state" if which else ", config")
        if mode < 2:
            got, err = attempt(lambda: go(FALSE if mode else None))
            return judge_reject(ck, run, i, got, err, ex[0])
        got, err = attempt(lambda: go(TRUE))
        files(None)
        want, err2 = attempt(lambda: go(FALSE))
        if err2 is not None:
            return ck.ob(R2, i, False, "rejected without unknown fields: " + exc_text(run, err2), loc(err2.loc), ctx(run))
        judge_ignore(ck, run, i, got, err, want)

    ck.explore(entry, Opts(faults=False, max_paths=500))


SMALL = {"r": None, "d": C(7), "e": C(8), "z": NONE}


def missing(ck):
    """all subsets of the fields of a small struct, at the top and nested, given values null or not"""
    def entry(run):
        ignore = {"ignore_extra_fields": TRUE} if run.choose("ignore", 2) else {}
        nested, named = run.choose("nested", 2), run.choose("named", 2)
        mk = struct if named else lambda n, p: mkdict(p)
        pairs = []
        for f, k in (("r", "int"), ("d", "int"), ("e", "int"), ("z", "str")):
            n = run.choose(f, 3 if f in "ez" else 2)
            if n:
                pairs.append((f, NONE if n == 2 else run.sym("g" + f, {k})))
        doc, cls = mk("Small", pairs), "uk.Small"
        if nested:
            doc, cls = mk("Hold", [("h", doc), ("y", C(2))]), "uk.Hold"
        got, err = attempt(lambda: call(run, "hyperstate.loads", run.lookup(cls), document(run, doc), **ignore))
        given = dict(pairs)
        judge_missing(ck, run, "Small%s" % (", nested" if nested else ""), got, err, given, {k: v for k, v in SMALL.items()}, nested and "h")

    ck.explore(entry, Opts(faults=False, max_paths=3000))


def judge_missing(ck, run, inst, got, err, given, defaults, inner=None):
    miss = [f for f in defaults if f not in given and defaults[f] is None]
    if miss:
        return ck.ob(R5, inst, err is not None, "loading succeeds without a value for %s" % ", ".join(miss), "hyperstate/serde.py (_try_create_defaults)", ctx(run))
    if err is not None:
        return ck.ob(R4, inst, False, "loading fails although all fields have values or defaults: " + exc_text(run, err), loc(err.loc), ctx(run))
    if inner:
        got = run.getattr_(got, inner)
    for f in defaults:
        v = run.getattr_(got, f)
        r, w = (R3, given[f]) if f in given else (R4, defaults[f]() if callable(defaults[f]) else defaults[f])
        ck.ob(r, inst + "." + f, same(run, v, w), "field %s is %s instead of %s" % (f, show(run.freeze(v))[:100], show(run.freeze(w))[:100]), "hyperstate/serde.py (from_dict)", ctx(run))


def missing_big(ck, w):
    """subsets of the struct-valued and container-valued fields"""
    def entry(run):
        full = document_of(run, None, None, True).d
        S = lambda n, *a: run.construct(run.lookup("uk." + n), list(a), {})
        dft = dict(s=None, n=None, o=None, l=None, ad=lambda: S("AllDef"), ou=lambda: S("Outer", S("AllDef")), d=C(7), e=lambda: S("Sub", C(3)), f=lambda: Seq("list", [C(1), C(2)]))
        pick = ("n", "ad", "e", "f") if w else ("s", "o", "l", "ou", "d")
        pairs, given = [], {}
        for kf, (k, v) in full.entries.items():
            f = k.a[0]
            if f in pick and run.choose(f, 2):
                continue
            pairs.append((f, v))
        have = {f for f, _ in pairs}
        t = document(run, struct("Cfg", pairs))
        got, err = attempt(lambda: call(run, "hyperstate.loads", run.lookup("uk.Cfg"), t))
        want = attempt(lambda: call(run, "hyperstate.loads", run.lookup("uk.Cfg"), document(run, document_of(run, None, None, True))))[0]
        if want is None:
            return ck.ob(R3, "Cfg", False, "the complete document is rejected", "", ctx(run))
        given = {f: run.getattr_(want, f) for f in dft if f in have}
        judge_missing(ck, run, "Cfg", got, err, given, dft)

    ck.explore(entry, Opts(faults=False, max_paths=3000))
