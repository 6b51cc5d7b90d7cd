"""Versions in dumps and on load.

Objects of a client class holding versioned objects at every kind of position (field, optional, list, dict, tuple, defaulted field, inside an unversioned dataclass, itself versioned or not), with
arbitrary values, are written through every entry point; the produced document is walked along the object and must contain the class's current version for every versioned object.
Documents that lack the version at the top or at one nested position are read through every entry point, which must fail.  All rules of the client classes of the third and fourth part raise when applied: they must not
be reached when no file is given, or when the data has the current version."""
from ..scen import *
from .. import tygen

R1, R2, R3, R4 = "C13.version-written", "C13.missing-version-rejected", "C13.no-file", "C13.current-version-untouched"
SRC = tygen.HEAD + '''
from hyperstate import StateManager, Lazy, Serializable
from hyperstate.schema.rewrite_rule import RewriteRule


class Boom(RewriteRule):
    def apply(self, state_dict):
        raise RuntimeError("a rule is applied")

    def apply_to_schema(self, schema):
        raise RuntimeError("a rule is applied")


class Keep(RewriteRule):
    def apply(self, state_dict):
        return state_dict

    def apply_to_schema(self, schema):
        pass


@dataclass
class Part(Versioned):
    a: int = 1
    b: str = "b"

    @classmethod
    def version(clz) -> int:
        return 2

    @classmethod
    def upgrade_rules(clz):
        return {0: [Boom()], 1: [Boom(), Boom()]}


@dataclass
class Sub(Part):
    c: int = 3

    @classmethod
    def version(clz) -> int:
        return 5

    @classmethod
    def upgrade_rules(clz):
        return {3: [Boom()]}


@dataclass
class Zero(Versioned):
    a: int = 1

    @classmethod
    def version(clz) -> int:
        return 0


@dataclass
class Box:
    p: Part
    n: int = 4


FIELDS


@dataclass
class Whole(Versioned):
%(fields)s

    @classmethod
    def version(clz) -> int:
        return 3

    @classmethod
    def upgrade_rules(clz):
        return {0: [Boom()], 2: [Boom()], 1: [Boom()]}


@dataclass
class Plain:
%(fields)s


@dataclass
class Old(Versioned):
    a: int
    p: Part
    z: Zero

    @classmethod
    def version(clz) -> int:
        return 2

    @classmethod
    def upgrade_rules(clz):
        return {0: [Keep()], 1: [Keep()]}


@dataclass
class OldPart(Versioned):
    a: int

    @classmethod
    def version(clz) -> int:
        return 4


@dataclass
class St:
    step: int


@dataclass
class VSt(Versioned, Lazy):
    step: int
    p: Part

    @classmethod
    def version(clz) -> int:
        return 6

    @classmethod
    def upgrade_rules(clz):
        return {5: [Boom()]}


def init(config, ctx):
    return St(0)


def vinit(a):
    def f(config, ctx):
        return VSt(0, Part(a))
    return f


def manager(cls, **kw):
    return StateManager(cls, St, init, **kw)


def vmanager(cls, a, **kw):
    return StateManager(cls, VSt, vinit(a), **kw)


def set_config(m, **kw):
    for k, v in kw.items():
        setattr(m.config, k, v)


def get(m):
    return m.config


def state(m):
    return m.state


def checkpoint(m, d):
    m.checkpoint(d)


def config_dict(m):
    return m.config_dict()


def dump_path(o, p, **kw):
    hyperstate.dump(o, p, **kw)


@dataclass
class Def(Versioned):
    x: int = 7
    p: Part = field(default_factory=Part)
    b: Box = field(default_factory=lambda: Box(Part(5)))

    @classmethod
    def version(clz) -> int:
        return 3

    @classmethod
    def upgrade_rules(clz):
        return {0: [Boom()], 2: [Boom()]}


@dataclass
class Req(Versioned):
    x: int
    s: str
    d: Def

    @classmethod
    def version(clz) -> int:
        return 9

    @classmethod
    def upgrade_rules(clz):
        return {0: [Boom()], 8: [Boom()]}
'''
FIELD_TYPES = [("p", "Part"), ("z", "Zero"), ("s", "Sub"), ("o", "Optional[Part]"), ("l", "List[Part]"), ("m", "Dict[str, Part]"), ("tu", "Tuple[int, Part]"), ("b", "Box"), ("lb", "List[Box]"),
               ("ob", "Optional[Box]"), ("ll", "List[List[Part]]"), ("lo", "List[Optional[Part]]"), ("d", "Part = field(default_factory=lambda: Part(8))"), ("od", "Optional[Part] = None"), ("n", "int = 5")]
VERSIONS = {"Part": 2, "Sub": 5, "Zero": 0, "Whole": 3, "VSt": 6, "Old": 2, "OldPart": 4, "Def": 3, "Req": 9}


def client_text():
    fields = "\n".join("    %s: %s" % f for f in FIELD_TYPES)
    return SRC.replace("FIELDS\n", "") % dict(fields=fields)


class Few:
    """generator of which only one value is unknown, the others are constants (equal to defaults or not)"""
    def __init__(self, g, run, at=None):
        self.g, self.run, self.n, self.at = g, run, 0, run.choose("unknown value", 12) * 3 if at is None else at

    def s(self, kind):
        self.n += 1
        if self.at <= self.n < self.at + 3:
            return self.g.s(kind)
        return C({"int": 1 if self.n % 4 < 2 else 70 + self.n, "str": "b" if self.n % 8 < 4 else "text"}[kind])

    def key(self, kind):
        return self.g.key(kind)


def value(run, cls, g):
    part = lambda: run.construct(run.lookup("vd.Part"), [g.s("int"), g.s("str")], {})
    box = lambda: run.construct(run.lookup("vd.Box"), [part(), g.s("int")], {})
    kw = dict(p=part(), z=run.construct(run.lookup("vd.Zero"), [g.s("int")], {}), s=run.construct(run.lookup("vd.Sub"), [g.s("int"), g.s("str"), g.s("int")], {}), o=part(), l=Seq("list", [part(), part()]), m=mkdict([(g.key("str"), part())]),
              tu=Seq("tuple", [g.s("int"), part()]), b=box(), lb=Seq("list", [box()]), ob=box(), ll=Seq("list", [Seq("list", [part()]), Seq("list", [])]), lo=Seq("list", [NONE, part()]), d=part(), od=part(), n=g.s("int"))
    return run.construct(run.lookup("vd." + cls), [], kw)


def fields_of(run, d):
    d = run.deref(d)
    if isinstance(d, Nt):
        d = d.d
    return {k.a[0]: e[1] for k, e in d.entries.items() if is_c(k) and e[1] is not Dict.TOMB} if isinstance(d, Dict) else None


def walk(run, o, d, path, out, elided):
    """(path, class, version found or None) for each versioned object below o; d: the part of the document describing it"""
    o = run.deref(o)
    if isinstance(o, Inst) and o.cls is not None and (o.cls.name in VERSIONS or o.cls.name in ("Plain", "Box", "St")):
        fs = fields_of(run, d)
        if fs is None:
            return out.append((path, o.cls.name, "not a struct"))
        if o.cls.name in VERSIONS:
            out.append((path, o.cls.name, run.bind_lit(run.deref(fs["version"])) if "version" in fs else None))
        for k, e in o.d.entries.items():
            n = e[0].a[0] if is_c(e[0]) else None
            if n in fs:
                walk(run, e[1], fs[n], "%s.%s" % (path, n), out, elided)
            elif not elided and n is not None and not n.startswith("_"):
                out.append(("%s.%s" % (path, n), "field", "missing"))
        return
    its, ds = items(o), items(run.deref(d)) if not isinstance(run.deref(d), Dict) else None
    if its is not None:
        if ds is None or len(ds) != len(its):
            return out.append((path, "sequence", "missing elements"))
        for i, (x, y) in enumerate(zip(its, ds)):
            walk(run, x, y, "%s[%d]" % (path, i), out, elided)
    elif isinstance(o, Dict):
        dd = run.deref(d)
        for k, e in o.entries.items():
            if e[1] is Dict.TOMB:
                continue
            x = dd.entries.get(k) if isinstance(dd, Dict) else None
            if x is None:
                out.append(("%s[key]" % path, "entry", "missing"))
            else:
                walk(run, e[1], x[1], "%s[key]" % path, out, elided)


def parsed(run, s):
    """the document a text was made from"""
    return None if s is None else run.tags.get(("ron", run.deref(s) if not isinstance(s, T) else s))


def judge(ck, run, inst, o, doc, elided, want=None):
    if doc is None:
        return ck.ob(R1, inst, None, "no document", "", ctx(run))
    out = []
    walk(run, o, doc, "", out, elided)
    for path, cls, v in out:
        ok = v is C(VERSIONS[cls]) if cls in VERSIONS else False
        ck.ob(R1, "%s, %s%s" % (inst, cls, path), ok, "the document has %s as version of the %s at '%s', expected %s" % (show(v) if isinstance(v, T) else v, cls, path, VERSIONS.get(cls)), "hyperstate/schema/versioned.py (VersionedSerializer)", ctx(run))
    if not any(c in VERSIONS for _, c, _ in out):
        ck.ob(R1, inst, None if elided else False, "no versioned object in the document", "", ctx(run))


WAYS = ["dumps", "dumps elided", "dump", "dump elided", "dump text path"]


def written(ck, cls, way):
    inst = "%s, %s" % (cls, way)

    def entry(run):
        g = tygen.Gen(run, "vd")
        o = value(run, cls, Few(g, run) if "elided" in way else g)
        kw = {"elide_defaults": TRUE} if "elided" in way else {}
        d = directory(run, "dir")
        p = under(d, "f.ron")
        if way.startswith("dumps"):
            s, err = attempt(lambda: call(run, "hyperstate.dumps", o, **kw))
        else:
            _, err = attempt(lambda: call(run, "vd.dump_path", o, p if "text" in way else T("P", p), **kw))
            s = run.vfs.get(p)
        if err is not None:
            return ck.ob(R1, inst, False, "dumping fails: " + exc_text(run, err), loc(err.loc), ctx(run))
        judge(ck, run, inst, o, parsed(run, s), "elided" in way)

    ck.explore(entry, Opts(faults=False, max_paths=400))


def managed(ck, cls):
    """checkpoints and config_dict()"""
    def entry(run):
        g = tygen.Gen(run, "vd")
        a = g.s("int")
        d = directory(run, "ckdir")
        p = under(directory(run, "cdir"), "c.ron")
        o = value(run, cls, g)
        run.vfs[p] = call(run, "hyperstate.dumps", o)
        for how in ("step", "checkpoint"):
            m = call(run, "vd.vmanager", run.lookup("vd." + cls), a, init_path=T("P", p), **({"checkpoint_dir": d} if how == "step" else {}))
            inst = "%s, %s" % (cls, how)
            target = under(d, "latest-step000000000000" if how == "step" else "mine")
            _, err = attempt(lambda: run.call(run.getattr_(m, "step"), [], {}) if how == "step" else call(run, "vd.checkpoint", m, target))
            if err is not None:
                ck.ob(R1, inst, False, "writing the checkpoint fails: " + exc_text(run, err), loc(err.loc), ctx(run))
                continue
            judge(ck, run, inst + ", config", o, parsed(run, run.vfs.get(under(target, "config.ron"))), False)
            judge(ck, run, inst + ", state", call(run, "vd.state", m), parsed(run, run.vfs.get(under(target, "state.ron"))), False)
            cd, err = attempt(lambda: call(run, "vd.config_dict", m))
            if err is not None:
                ck.ob(R1, inst + ", config_dict", False, "config_dict() fails: " + exc_text(run, err), loc(err.loc), ctx(run))
            else:
                judge(ck, run, inst + ", config_dict", o, cd, False)

    ck.explore(entry, Opts(faults=False, max_paths=100))


def upgraded(ck, v):
    """what was loaded from older data is written with the current version"""
    def entry(run):
        g = tygen.Gen(run, "vd")
        doc = struct("Old", [("version", C(v)), ("a", g.s("int")), ("p", struct("Part", [("version", C(2)), ("a", g.s("int"))])), ("z", struct("Zero", [("version", C(0)), ("a", g.s("int"))]))])
        o, err = attempt(lambda: call(run, "hyperstate.loads", run.lookup("vd.Old"), document(run, doc)))
        if err is None:
            s, err = attempt(lambda: call(run, "hyperstate.dumps", o))
        if err is not None:
            return ck.ob(R1, "from version %d" % v, False, "loading and dumping fails: " + exc_text(run, err), loc(err.loc), ctx(run))
        judge(ck, run, "from version %d" % v, o, parsed(run, s), False)

    ck.explore(entry, Opts(faults=False, max_paths=100))


# ---- missing versions

def tree(run, cls, g, skip, named):
    """document of a Whole or Plain; the version is left out (or null) at the position `skip`"""
    def mk(name, pairs):
        return struct(name, pairs) if named else mkdict(pairs)

    def part(pos, name="Part", extra=()):
        v = [("version", C(VERSIONS[name]))]
        if pos == skip[0]:
            v = {"absent": [], "empty": [], "null": [("version", NONE)]}[skip[1]]
        if skip == (pos, "empty"):
            return mk(name, [])
        return mk(name, v + [("a", g.s("int"))] + list(extra))

    box = lambda pos: mk("Box", [("p", part(pos))])
    pairs = [("p", part("p")), ("z", part("z", "Zero")), ("s", part("s", "Sub", [("c", g.s("int"))])), ("o", part("o")), ("l", Seq("list", [part("l[0]"), part("l[1]")])), ("m", mkdict([("k", part("m.k"))])), ("tu", Seq("tuple", [g.s("int"), part("tu[1]")])), ("b", box("b.p")),
             ("lb", Seq("list", [box("lb[0].p")])), ("ob", box("ob.p")), ("ll", Seq("list", [Seq("list", [part("ll[0][0]")])])), ("lo", Seq("list", [NONE, part("lo[1]")])), ("d", part("d")), ("od", part("od"))]
    if cls == "Whole":
        v = [("version", C(3))]
        if skip[0] == "":
            v = {"absent": [], "null": [("version", NONE)], "empty": []}[skip[1]]
        pairs = v + pairs
    return mk(cls, pairs)


POSITIONS = ["", "p", "z", "s", "o", "l[0]", "l[1]", "m.k", "tu[1]", "b.p", "lb[0].p", "ob.p", "ll[0][0]", "lo[1]", "d", "od"]


def read(run, via, cls, doc, overrides=False):
    """load the document through an entry point"""
    clz = run.lookup("vd." + cls)
    p = run.sym("docpath", {"str"})
    ov = {"overrides": Seq("list", [C("n=6")])} if overrides else {}
    if via == "loads":
        return call(run, "hyperstate.loads", clz, document(run, doc), **ov)
    if via == "load":
        return call(run, "hyperstate.load", clz, doc_file(run, doc, p), **ov)
    if via == "load text path":
        run.vfs[p] = document(run, doc)
        return call(run, "hyperstate.load", clz, p, **ov)
    if via == "init":
        return call(run, "vd.get", call(run, "vd.manager", clz, init_path=doc_file(run, doc, p), **ov))
    c = directory(run, "dir")
    sub = c if via == "initdir" else under(c, "latest-step000000000007")
    if via != "initdir":
        run.vdirs[sub] = True
    run.vfs[under(sub, "config.ron")] = document(run, doc)
    run.vfs[under(sub, "state.ron")] = document(run, struct("St", [("step", C(7))]), "statedoc")
    return call(run, "vd.get", call(run, "vd.manager", clz, **({"init_path": c} if via == "initdir" else {"checkpoint_dir": c}), **ov))


ENTRIES = ["loads", "load", "load text path", "init", "initdir", "resume"]


def missing(ck, cls, pos, how, via, named, ov):
    inst = "%s%s at '%s', %s%s%s" % (cls, "" if named else " map", pos, how, " " + via, ", override" if ov else "")

    def entry(run):
        g = tygen.Gen(run, "vd")
        got, err = attempt(lambda: read(run, via, cls, tree(run, cls, g, (pos, how), named), ov))
        ck.ob(R2, inst, err is not None, "data without version at '%s' is loaded as %s" % (pos, "" if err else show(run.freeze(got))[:300]), "hyperstate/schema/versioned.py (VersionedDeserializer)", ctx(run))
        if err is None:
            return
        # the same document with the version loads: the failure is about the version
        _, err2 = attempt(lambda: read(run, via, cls, tree(run, cls, g, ("none", ""), named), ov))
        ck.ob(R4, inst + ", with version", err2 is None, "data of the current version cannot be loaded: %s" % (exc_text(run, err2) if err2 else ""), loc(err2.loc) if err2 else "", ctx(run))

    ck.explore(entry, Opts(faults=False, max_paths=100))


def missing_state(ck, via, pos):
    """versioned states"""
    inst = "state at '%s', %s" % (pos, via)

    def entry(run):
        g = tygen.Gen(run, "vd")
        c = directory(run, "dir")
        sub = c if via == "initdir" else under(c, "latest-step000000000007")
        if via != "initdir":
            run.vdirs[sub] = True
        run.vfs[under(sub, "config.ron")] = document(run, struct("Def", [("version", C(3))]))
        part = struct("Part", ([] if pos == "p" else [("version", C(2))]) + [("a", g.s("int"))])
        run.vfs[under(sub, "state.ron")] = document(run, struct("VSt", ([] if pos == "" else [("version", C(6))]) + [("step", C(7)), ("p", part)]), "statedoc")
        m = call(run, "vd.vmanager", run.lookup("vd.Def"), g.s("int"), **({"init_path": c} if via == "initdir" else {"checkpoint_dir": c}))
        got, err = attempt(lambda: call(run, "vd.state", m))
        if pos == "ok":
            return ck.ob(R4, inst, err is None, "a state of the current version cannot be loaded: %s" % (exc_text(run, err) if err else ""), loc(err.loc) if err else "", ctx(run))
        ck.ob(R2, inst, err is not None, "a state without version is loaded as %s" % ("" if err else show(run.freeze(got))[:300]), "hyperstate/hyperstate.py (StateManager._load_state)", ctx(run))

    ck.explore(entry, Opts(faults=False, max_paths=100))


# ---- no file

def nofile(ck, cls, via, ov):
    inst = "%s, %s%s" % (cls, via, ", overrides" if ov else "")

    def entry(run):
        clz = run.lookup("vd." + cls)
        kw = {}
        if cls == "Req":
            kw = {"overrides": Seq("list", [C("x=4"), C("s=t")] + ([C("d.p.a=12")] if ov else []))}
        elif ov:
            kw = {"overrides": Seq("list", [C("x=4"), C("p.a=12")])}
        if via == "load":
            got, err = attempt(lambda: call(run, "hyperstate.load", clz, NONE, **kw))
        else:
            if via == "empty dir":
                kw["checkpoint_dir"] = directory(run, "dir")
            got, err = attempt(lambda: call(run, "vd.get", call(run, "vd.manager", clz, **kw)))
        if err is not None:
            return ck.ob(R3, inst, False, "creating the config without a file fails: %s" % exc_text(run, err), loc(err.loc), ctx(run))
        x = {"Def": C(4) if ov else C(7), "Req": C(4)}[cls]
        d = got if cls == "Def" else run.getattr_(got, "d")
        pa = run.getattr_(run.getattr_(d, "p"), "a")
        ck.ob(R3, inst, same(run, run.getattr_(got, "x"), x), "x is %s" % show(run.freeze(run.getattr_(got, "x"))), "hyperstate/schema/versioned.py", ctx(run))
        ck.ob(R3, inst + ", nested", same(run, pa, C(12) if ov else C(1)), "p.a is %s" % show(run.freeze(pa)), "hyperstate/schema/versioned.py", ctx(run))

    ck.explore(entry, Opts(faults=False, max_paths=100))


# ---- current version

def again(ck, cls, way, via, at):
    inst = "%s, %s, %s" % (cls, way, via)

    def entry(run):
        g = tygen.Gen(run, "vd")
        o = value(run, cls, Few(g, run, at) if "elided" in way else g)
        kw = {"elide_defaults": TRUE} if "elided" in way else {}
        s = call(run, "hyperstate.dumps", o, **kw)
        doc = parsed(run, s)
        if doc is None:
            return ck.ob(R4, inst, None, "no document", "", ctx(run))
        got, err = attempt(lambda: read(run, via, cls, doc))
        if err is not None:
            return ck.ob(R4, inst, False, "what was dumped does not load: %s" % exc_text(run, err), loc(err.loc), ctx(run))
        ck.ob(R4, inst, same(run, got, o), "loaded as %s" % show(run.freeze(got))[:300], "hyperstate/schema/versioned.py", ctx(run))
        s2, err = attempt(lambda: call(run, "hyperstate.dumps", got, **kw))
        ck.ob(R4, inst + ", again", err is None and same(run, parsed(run, s2), doc) if err or parsed(run, s2) is not None else None, "the second dump differs: %s" % (exc_text(run, err) if err else show(run.freeze(parsed(run, s2)))[:300]), "", ctx(run))

    ck.explore(entry, Opts(faults=False, max_paths=400))


def run(ck):
    client_src(ck, "vd", client_text())
    jobs = [lambda ck, a=(c, w): written(ck, *a) for c in ("Whole", "Plain") for w in WAYS]
    jobs += [lambda ck, c=c: managed(ck, c) for c in ("Whole", "Plain")]
    jobs += [lambda ck, v=v: upgraded(ck, v) for v in range(3)]
    for cls in ("Whole", "Plain"):
        for pos in POSITIONS:
            for via in ENTRIES:
                if cls == "Plain" and (pos == "" or via not in ("loads", "load", "load text path")):
                    continue
                for how in ("absent", "null", "empty") if via == "loads" or ck.thorough or pos == "" else ("absent",):
                    for named in (True, False) if via == "loads" or ck.thorough else (True,):
                        for ov in (False, True):
                            if pos == "" and how == "empty":
                                continue
                            jobs.append(lambda ck, a=(cls, pos, how, via, named, ov): missing(ck, *a))
    jobs += [lambda ck, a=(v, p): missing_state(ck, *a) for v in ("initdir", "resume") for p in ("", "p", "ok")]
    jobs += [lambda ck, a=(c, v, o): nofile(ck, *a) for c in ("Def", "Req") for v in ("load", "manager", "empty dir") for o in (False, True)]
    jobs += [lambda ck, a=(c, w, v, at): again(ck, *a) for c in ("Whole", "Plain") for w in ("full", "elided") for v in ENTRIES for at in (range(0, 36, 3) if w == "elided" and (v == "loads" or ck.thorough) else (-9,))]
    ck.map(jobs)
    ck.need(100, R1)
    ck.need(50, R2)
    ck.need(10, R3)
    ck.need(20, R4)
