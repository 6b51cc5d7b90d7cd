"""Failed dumps.

An object with a value that cannot be serialized at some position (or for which the serialization libraries raise at any of their calls, or whose lazy field raises) is dumped to a path
that names an existing file with unknown content, or no file.  On every path that ends in an exception the abstract file system must be what it was: the old content, or no file; and an object that cannot be
serialized must end in an exception."""
from ..scen import *
from .. import schemas
from .. import tygen

R1, R2, R3 = "C22.file-unchanged", "C22.failure-reported", "C22.success-writes"
SRC = tygen.HEAD + '''
from hyperstate import Lazy, Serializable
''' + schemas.TOOLS + '''

class Opaque:
    pass


class Weights(Serializable):
    def __init__(self, v, ok):
        self.v = v
        self.ok = ok

    def serialize(self):
        if not self.ok:
            raise RuntimeError("cannot be serialized")
        return {"v": self.v}

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        return Weights(state_dict["v"], True)


@dataclass
class St(Lazy):
    step: Any
    w: Weights
    s: Leaf
    l: List[Any]
    m: Dict[str, Any]
    t: Tuple[Any, int]
    last: Any


def state(step, w, s, l, m, t, last):
    return St(step, w, s, l, m, t, last)


@dataclass
class Plain:
    step: Any
    s: Leaf
    l: List[Any]
    m: Dict[str, Any]
    t: Tuple[Any, int]
    last: Any = None


def opaque():
    return Opaque()


def schema(path):
    write_schema(path, Vers)
'''
PLACES = ["step", "leaf.b", "list", "dict", "tuple", "last", "blob", "nested list", "none"]


def run(ck):
    client_src(ck, "fd", SRC)
    jobs = []
    for place in PLACES:
        for lazy in (True, False):
            for existing in (True, False):
                for kw in ({}, {"elide_defaults": TRUE}):
                    if place != "blob" or lazy:
                        jobs.append(lambda ck, a=(place, lazy, existing, kw): one(ck, *a))
    for existing in (True, False):
        jobs.append(lambda ck, e=existing: schema(ck, e))
    ck.map(jobs)
    ck.need(15, R1)
    ck.need(8, R2)
    ck.need(2, R3)


def target(run, existing):
    d = directory(run, "dir")
    p = T("join", run.pkey(d), C("f.ron"))
    old = run.sym("old content", {"str"})
    if existing:
        run.vfs[p] = old
    return d, p, old


def judge(ck, run, inst, err, p, old, existing, d, must_fail):
    if err is None:
        if must_fail:
            return ck.ob(R2, inst, False, "an object that cannot be serialized is dumped without an error", "hyperstate/serde.py (asdict)", ctx(run))
        c = run.vfs.get(p)
        return ck.ob(R3, inst, c is not None and run.freeze(c) is not old, "dump returns but the file was not written", "hyperstate/serde.py (dump)", ctx(run))
    ck.ob(R2, inst, True)
    where = loc(err.loc)
    if existing:
        c = run.vfs.get(p)
        ck.ob(R1, inst, c is not None and run.freeze(c) is old, "dump failed (%s) and the existing file now has the content %s" % (exc_text(run, err), show(run.freeze(c))[:100] if c is not None else "(removed)"), where, ctx(run))
    else:
        ck.ob(R1, inst, run.fs_known("exists", p) is False, "dump failed (%s) but left a file" % exc_text(run, err), where, ctx(run))
    rest = [q for q in run.fs_children(run.pkey(d)) or [] if q is not p]
    ck.ob(R1, inst + ", other files", not rest, "dump failed (%s) and left other files: %s" % (exc_text(run, err), [show(q) for q in rest]), where, ctx(run))


def one(ck, place, lazy, existing, kw):
    inst = "%s, %s%s%s" % (place, "state with lazy field" if lazy else "dataclass", ", existing file" if existing else ", no file", ", elided" if kw else "")

    def entry(run):
        d, p, old = target(run, existing)
        bad = run.call(run.lookup("fd.opaque"), [], {})
        g = tygen.Gen(run, "fd")
        val = lambda here: bad if place == here else g.s("int")
        leaf = run.construct(run.lookup("fd.Leaf"), [g.s("int"), bad if place == "leaf.b" else g.s("str"), NONE], {})
        lst = Seq("list", [g.s("int"), val("list")] + ([Seq("list", [bad])] if place == "nested list" else []))
        args = [val("step"), leaf, lst, mkdict([("k", val("dict"))]), Seq("tuple", [val("tuple"), g.s("int")]), val("last")]
        if lazy:
            args.insert(1, run.construct(run.lookup("fd.Weights"), [g.s("float"), FALSE if place == "blob" else TRUE], {}))
        o = run.construct(run.lookup("fd.St" if lazy else "fd.Plain"), args, {})
        run.ser_armed = True
        _, err = attempt(lambda: call(run, "hyperstate.dump", o, T("P", p) if place != "last" else p, **kw))
        run.ser_armed = False
        judge(ck, run, inst, err, p, old, existing, d, place != "none")

    ck.explore(entry, Opts(faults=False, max_paths=500))


def schema(ck, existing):
    def entry(run):
        d, p, old = target(run, existing)
        run.ser_armed = True
        _, err = attempt(lambda: call(run, "fd.schema", p))
        run.ser_armed = False
        judge(ck, run, "schema%s" % (", existing file" if existing else ""), err, p, old, existing, d, False)

    ck.explore(entry, Opts(faults=False, max_paths=500))
