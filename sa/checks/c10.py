"""Overrides win over every other source.

A versioned config with upgrade rules of every kind (rename into and out of structs, delete, map, default changes and additions, at the top level and in nested structs) is loaded from: nothing, a text, a file,
an init file, an init checkpoint and a resumed checkpoint, the document being of every version and in several shapes, with one override per field.  The result must equal the object loaded without the override from the
same source in which the field is then assigned the override's value.  Pairs of overrides of one field: the later wins.  A scheduled field that is overridden has the overridden value after every step."""
from ..scen import *
from .. import tygen

R1, R2, R3 = "C10.override-wins", "C10.later-wins", "C10.schedule-overridden"
SRC = tygen.HEAD + '''
from hyperstate import StateManager, Lazy, Serializable
from hyperstate.schema.rewrite_rule import RenameField, DeleteField, MapFieldValue, ChangeDefault, AddDefault, CheckValue, RejectValues


@dataclass
class Opt:
    a: int
    b: float = 0.75
    c: str = "c"


@dataclass
class Top:
    opt: Opt
    z: int = 3


@dataclass
class Cfg(Versioned):
    lr: float
    name: str
    opt: Opt
    top: Top
    mapped: int = 11
    added: int = 12
    changed: int = 14
    flag: bool = False
    dopt: Opt = field(default_factory=lambda: Opt(21, 0.5, "d"))
    eopt: Opt = field(default_factory=lambda: Opt(31))
    oopt: Optional[Opt] = None
    kept: str = "kept"

    @classmethod
    def version(clz) -> int:
        return 3

    @classmethod
    def minimum_version(clz) -> int:
        return 0

    @classmethod
    def upgrade_rules(clz):
        return {
            0: [RenameField(("old_lr",), ("lr",)), RenameField(("old_b",), ("opt", "b")), DeleteField(("gone",)), DeleteField(("opt", "gone"))],
            1: [MapFieldValue(("mapped",), lambda x: x + 1), ChangeDefault(("opt", "c"), "oldc", "c"), ChangeDefault(("changed",), 13, 14), ChangeDefault(("dopt", "c"), "olddc", "c"), ChangeDefault(("eopt", "c"), "oldec", "c")],
            2: [AddDefault(("added",), 99), AddDefault(("opt", "a"), 98), AddDefault(("top", "opt", "a"), 97), RenameField(("title",), ("name",)), RenameField(("flagged",), ("flag",))],
        }


@dataclass
class Sched:
    lr: float
    inner: Opt
    wd: float = 0.5


@dataclass
class St:
    step: int


def init(config, ctx):
    return St(0)


def managed(cls, n=0, **kw):
    return StateManager(cls, St, init, **kw)


def config(m):
    return m.config


def write(m, config):
    """a checkpoint with this config"""
    m._config = config
    m.step()


def advance(m, n):
    m.state.step = n
    m.step()


def assign(obj, path, make, value):
    for name in path[:-1]:
        if getattr(obj, name) is None:
            setattr(obj, name, make())
        obj = getattr(obj, name)
    setattr(obj, path[-1], value)


def new():
    return Opt(0)


def read(obj, path):
    for name in path:
        obj = getattr(obj, name)
    return obj
'''
FIELDS = [("lr", "0.125", 0.125), ("name", "ov", "ov"), ("opt.a", "5", 5), ("opt.b", "0.5", 0.5), ("opt.c", "ov", "ov"), ("top.opt.a", "6", 6), ("top.opt.c", "ov", "ov"), ("top.z", "7", 7),
          ("mapped", "8", 8), ("added", "9", 9), ("changed", "10", 10), ("flag", "true", True), ("dopt.a", "15", 15), ("dopt.c", "ov", "ov"), ("oopt.a", "16", 16), ("eopt.a", "17", 17), ("eopt.b", "0.25", 0.25), ("kept", "ov", "ov")]


def doc(run, version, shape):
    """a document of the given version; shape: full, sparse (absent fields with a default), nulls"""
    n = [0]

    def s(kind):
        n[0] += 1
        return run.sym("%s%d" % (kind, n[0]), {kind})

    opt = lambda: [("a", s("int")), ("b", s("float")), ("c", s("str"))]
    pairs = [("version", C(version)), ("old_lr" if version == 0 else "lr", s("float")), ("title" if version < 3 else "name", s("str"))]
    sparse = shape != "full"
    if version == 0 and not sparse:
        o = [("a", s("int")), ("c", s("str")), ("gone", s("int"))]
        pairs += [("old_b", s("float")), ("gone", s("str"))]
    else:
        o = [("a", s("int"))] if sparse else opt()
    if not (sparse and version < 3):
        pairs.append(("opt", struct("Opt", o)))
    if not (sparse and version < 3):
        pairs.append(("top", struct("Top", [("opt", struct("Opt", [("a", s("int"))] if sparse else opt()))] + ([] if sparse else [("z", s("int"))]))))
    if not sparse:
        pairs += [("mapped", s("int")), ("added", s("int")), ("changed", s("int")), ("flag" if version == 3 else "flagged", s("bool")), ("dopt", struct("Opt", opt())), ("eopt", struct("Opt", opt())), ("oopt", struct("Opt", opt())), ("kept", s("str"))]
    elif shape == "nulls":
        pairs.append(("oopt", NONE))
    return struct("Cfg", pairs)


def source(run, via, d):
    """a function loading the config with the overrides"""
    cls = run.lookup("ow.Cfg")
    if via == "loads":
        return lambda ov: call(run, "hyperstate.loads", cls, document(run, d), overrides=ov)
    p = run.sym("docpath", {"str"})
    f = doc_file(run, d, p)
    if via == "load":
        return lambda ov: call(run, "hyperstate.load", cls, f, overrides=ov)
    if via == "init":
        return lambda ov: call(run, "ow.config", call(run, "ow.managed", cls, init_path=f, overrides=ov))
    if via == "initdir":
        c = directory(run, "initdir")
        run.vfs[T("join", run.pkey(c), C("config.ron"))] = document(run, d)
        return lambda ov: call(run, "ow.config", call(run, "ow.managed", cls, init_path=c, overrides=ov))
    # a checkpoint left by an earlier version of the program
    c = directory(run, "ckdir")
    sub = under(c, "latest-step000000000007")
    run.vdirs[sub] = True
    run.vfs[under(sub, "config.ron")] = document(run, d)
    run.vfs[under(sub, "state.ron")] = document(run, struct("St", [("step", C(7))]), "statedoc")
    if via == "resume":
        return lambda ov: call(run, "ow.config", call(run, "ow.managed", cls, checkpoint_dir=c, overrides=ov))
    other = doc_file(run, doc(run, 3, "full"), p)
    return lambda ov: call(run, "ow.config", call(run, "ow.managed", cls, checkpoint_dir=c, init_path=other, overrides=ov))


VIAS = ["loads", "load", "init", "initdir", "resume", "resume+init"]


def run(ck):
    client_src(ck, "ow", SRC)
    jobs = []
    for f in FIELDS:
        for via in VIAS:
            for version in (0, 1, 2, 3):
                for shape in ("full", "sparse", "nulls"):
                    if via in ("loads", "resume") or version in (1, 3) and shape != "nulls" or ck.thorough:
                        jobs.append(lambda ck, a=(f, via, version, shape): one(ck, *a))
        jobs.append(lambda ck, f=f: nothing(ck, f))
        jobs += [lambda ck, f=f, via=via: later(ck, f, via) for via in ("loads", "load", "init", "resume")]
    jobs += [lambda ck, via=via, f=f: scheduled(ck, via, f) for via in ("init", "initdir", "resume") for f in ("lr", "inner.b", "wd")]
    jobs.append(persisted)
    ck.map(jobs)
    for r, n in ((R1, 50), (R2, 5), (R3, 2)):
        ck.need(n, r)


def strs(run, *xs):
    return Seq("list", [C(x) for x in xs])


def one(ck, f, via, version, shape):
    path, text, val = f
    inst = "%s from %s, version %d, %s" % (path, via, version, shape)
    def entry(run):
        load = source(run, via, doc(run, version, shape))
        base, err = attempt(lambda: load(strs(run)))
        if err is not None:
            return shape == "full" and ck.ob(R1, inst, None)          # sparse: not necessarily a valid document of this version
        got, err = attempt(lambda: load(strs(run, path + "=" + text)))
        if err is not None:
            return ck.ob(R1, inst, False, "loading with the override %s=%s fails: %s" % (path, text, exc_text(run, err)), loc(err.loc), ctx(run))
        call(run, "ow.assign", base, Seq("list", [C(x) for x in path.split(".")]), run.lookup("ow.new"), C(val))
        ck.ob(R1, inst, same(run, got, base), "with %s=%s the config is %s, expected %s" % (path, text, show(run.freeze(got))[:500], show(run.freeze(base))[:500]),
              "hyperstate/hyperstate.py (_typed_load, OverridesDeserializer)", ctx(run))

    ck.explore(entry, Opts(faults=False, max_paths=300))


def nothing(ck, f):
    """no file: defaults, and overrides for the fields without one"""
    path, text, val = f
    inst = "%s without a file" % path
    need = ["lr=0.5", "name=n", "opt.a=1", "top.opt.a=2"]

    def entry(run):
        cls = run.lookup("ow.Cfg")
        for via, load in (("load", lambda ov: call(run, "hyperstate.load", cls, NONE, overrides=ov)), ("managed", lambda ov: call(run, "ow.config", call(run, "ow.managed", cls, overrides=ov)))):
            base = load(strs(run, *need))
            got, err = attempt(lambda: load(strs(run, *need, path + "=" + text)))
            if err is not None:
                return ck.ob(R1, inst + ", " + via, False, "loading with the override %s=%s fails: %s" % (path, text, exc_text(run, err)), loc(err.loc), ctx(run))
            call(run, "ow.assign", base, Seq("list", [C(x) for x in path.split(".")]), run.lookup("ow.new"), C(val))
            ck.ob(R1, inst + ", " + via, same(run, got, base), "with %s=%s the config is %s, expected %s" % (path, text, show(run.freeze(got))[:500], show(run.freeze(base))[:500]),
                  "hyperstate/hyperstate.py (_typed_load)", ctx(run))

    ck.explore(entry, Opts(faults=False, max_paths=300))


FIRST = {float: "0.375", str: "first", int: "3", bool: "false"}


def later(ck, f, via):
    path, text, val = f
    inst = "%s from %s" % (path, via)

    def entry(run):
        load = source(run, via, doc(run, 3, "full"))
        base = load(strs(run, path + "=" + text))
        for ovs in ([path + "=" + FIRST[type(val)], path + "=" + text], [path + "=" + FIRST[type(val)], "kept=k" if path != "kept" else "mapped=8", path + "=" + text]):
            got, err = attempt(lambda: load(strs(run, *ovs)))
            if err is not None:
                return ck.ob(R2, inst, False, "loading with %s fails: %s" % (ovs, exc_text(run, err)), loc(err.loc), ctx(run))
            x = call(run, "ow.read", got, Seq("list", [C(n) for n in path.split(".")]))
            ck.ob(R2, inst, same(run, x, C(val)), "with the overrides %s the field is %s" % (ovs, show(run.freeze(x))[:100]), "hyperstate/hyperstate.py (OverridesDeserializer)", ctx(run))
        # a struct and then one of its fields
        if "." in path and not path.startswith("top.opt"):
            top = path.split(".")[0]
            lit = 'Opt(a: 1, b: 0.25, c: "l")' if "opt" in top else "Top(opt: Opt(a: 1))"
            got = load(strs(run, top + "=" + lit, path + "=" + text))
            x = call(run, "ow.read", got, Seq("list", [C(n) for n in path.split(".")]))
            ck.ob(R2, inst + " after its struct", same(run, x, C(val)), "with the overrides %s the field is %s" % ([top + "=" + lit, path + "=" + text], show(run.freeze(x))[:100]), "hyperstate/hyperstate.py (OverridesDeserializer)", ctx(run))

    ck.explore(entry, Opts(faults=False, max_paths=300))


def scheduled(ck, via, f):
    """the document has a schedule for the field; the override replaces it for good"""
    inst = "%s from %s" % (f, via)

    def entry(run):
        text = C("step: 0.1@0 lin 0.2@100")
        d = struct("Sched", [("lr", text), ("inner", struct("Opt", [("a", run.sym("a", {"int"})), ("b", text)])), ("wd", text)])
        cls = run.lookup("ow.Sched")
        ov = strs(run, f + "=0.5")
        if via == "init":
            m = call(run, "ow.managed", cls, init_path=doc_file(run, d, run.sym("docpath", {"str"})), overrides=ov)
        else:
            c = directory(run, "dir")
            sub = run.pkey(c) if via == "initdir" else under(c, "latest-step000000000007")
            run.vdirs[sub] = True
            run.vfs[under(sub, "config.ron")] = document(run, d)
            run.vfs[under(sub, "state.ron")] = document(run, struct("St", [("step", C(7))]), "statedoc")
            m = call(run, "ow.managed", cls, overrides=ov, **({"init_path": c} if via == "initdir" else {"checkpoint_dir": c}))
        path = Seq("list", [C(x) for x in f.split(".")])
        for n in (0, 8, 50, 100):
            if n:
                call(run, "ow.advance", m, C(n))
            got, err = attempt(lambda: call(run, "ow.read", call(run, "ow.config", m), path))
            if err is not None:
                return ck.ob(R3, inst, False, "reading the config fails: %s" % exc_text(run, err), loc(err.loc), ctx(run))
            ck.ob(R3, inst, same(run, got, C(0.5)), "at step %d the overridden field is %s" % (n, show(run.freeze(got))[:100]), "hyperstate/hyperstate.py (ScheduleDeserializer)", ctx(run))

    ck.explore(entry, Opts(faults=False, max_paths=300))


def persisted(ck):
    """the overridden value is in the checkpoint, and an override at resume wins over it"""

    def entry(run):
        cls = run.lookup("ow.Cfg")
        d = directory(run, "ckdir")
        f = doc_file(run, doc(run, 1, "full"), run.sym("docpath", {"str"}))
        m = call(run, "ow.managed", cls, init_path=f, checkpoint_dir=d, overrides=strs(run, "lr=0.125", "opt.a=5", "name=first"))
        call(run, "ow.advance", m, C(1))
        path = lambda s: Seq("list", [C(n) for n in s.split(".")])
        for label, ov, want in (("resumed without overrides", [], {"lr": 0.125, "opt.a": 5, "name": "first"}), ("resumed with other overrides", ["opt.a=6", "name=second"], {"lr": 0.125, "opt.a": 6, "name": "second"})):
            got, err = attempt(lambda: call(run, "ow.config", call(run, "ow.managed", cls, checkpoint_dir=d, overrides=strs(run, *ov))))
            if err is not None:
                return ck.ob(R1, label, False, "resuming fails: %s" % exc_text(run, err), loc(err.loc), ctx(run))
            for k, v in want.items():
                x = call(run, "ow.read", got, path(k))
                ck.ob(R1, label, same(run, x, C(v)), "%s: the field %s is %s, expected %r" % (label, k, show(run.freeze(x))[:100], v), "hyperstate/hyperstate.py (StateManager._load_config)", ctx(run))

    ck.explore(entry, Opts(faults=False, max_paths=300))
