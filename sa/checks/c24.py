"""Aliasing and argument mutation.

For each supported type an object with arbitrary content is dumped twice (text, elided, file, config_dict, checkpoint): its structure must be identical before and after, and both outputs the same term.  A document is loaded twice,
with and without overrides: the sets of mutable heap objects (dataclass instances, lists, dicts) reachable from the two results, from the caller's arguments and from each other must be disjoint on the abstract heap, and the
caller's arguments unchanged."""
from ..scen import *
from .. import tygen
from . import c06

R1, R2, R3, R4 = "C24.dump-leaves-object", "C24.dump-repeatable", "C24.loads-share-nothing", "C24.arguments-unchanged"


def reach(run, v, out, seen=None):
    """mutable heap objects reachable from v: id -> object"""
    v = run.deref(v) if isinstance(v, T) else v
    if isinstance(v, T) or id(v) in out:
        return out
    if isinstance(v, Inst):
        if v.cls is None or run.is_enum_class(v.cls):
            return out
        out[id(v)] = v
        for k, x in v.d.entries.values():
            if x is not Dict.TOMB:
                reach(run, x, out)
    elif isinstance(v, Dict):
        out[id(v)] = v
        for k, x in list(v.entries.values()) + list(v.stars):
            if x is not Dict.TOMB:
                reach(run, x, out)
    elif isinstance(v, Seq):
        if v.kind != "tuple":
            out[id(v)] = v
        for x in v.items:
            reach(run, x.value if isinstance(x, Star) else x, out)
    return out


def shared(run, a, b):
    ra, rb = reach(run, a, {}), reach(run, b, {})
    return [ra[i] for i in ra if i in rb]


EXTRA = '''
from hyperstate import StateManager, Lazy, Serializable


@dataclass
class Fac:
    l: List[int] = field(default_factory=lambda: [1])
    m: Dict[str, int] = field(default_factory=dict)
    s: Leaf = field(default_factory=lambda: Leaf(1))
    n: List[Leaf] = field(default_factory=lambda: [Leaf(2)])


@dataclass
class Top:
    f: Fac
    g: Optional[Leaf]
    a: int = 1


@dataclass
class St:
    step: int
    s: Leaf
    l: List[Leaf]


def manager(cfg_path, ckdir, overrides, st):
    return StateManager(Top, St, lambda c, x: st, init_path=cfg_path, checkpoint_dir=ckdir, overrides=overrides)


def config(m):
    return m.config


def state(m):
    return m.state


def checkpoint(m, p):
    m.checkpoint(p)


def step(m):
    m.step()


def config_dict(m):
    return m.config_dict()
'''


def run(ck):
    ts = tygen.types(3 if ck.thorough else 2) + tygen.UNIONS
    client_src(ck, "al", tygen.module(ts, EXTRA))
    client_src(ck, "el", c06.source())
    jobs = [lambda ck, a=(i, t): one(ck, *a) for i, t in enumerate(ts)]
    jobs += [lambda ck, a=i: dflt(ck, a) for i in range(len(c06.FIELDS))]
    jobs += [lambda ck, a=o: overridden(ck, a) for o in ([], ["a=5"], ["f.l=[3]"], ["f.s.a=7", "g.a=1"], ["f.m={}"])]
    jobs.append(manager)
    ck.map(jobs)
    ck.need(20, R1)
    ck.need(20, R2)
    ck.need(20, R3)
    ck.need(1, R4)


def one(ck, i, t):
    def entry(run):
        g = tygen.Gen(run, "al", (2,))
        cls = run.lookup("al.N%d" % i)
        v = run.construct(cls, [run.construct(run.lookup("al.C%d" % i), [g.make(t)], {}), g.s("int")], {})
        both(ck, run, cls, v, str(t))
    ck.explore(entry, Opts(faults=False, max_paths=2000))


def dflt(ck, i):
    t, d = c06.FIELDS[i]

    def entry(run):
        g = tygen.Gen(run, "el", (0, 2))
        cls = run.lookup("el.D%d" % i)
        v = run.construct(cls, [g.s("int")] + ([] if run.choose("default", 2) else [g.make(tygen.Ty(t) if isinstance(t, str) else t), g.s("int")]), {})
        both(ck, run, cls, v, "%s = %s" % (t, d))
    ck.explore(entry, Opts(faults=False, max_paths=2000))


def both(ck, run, cls, v, inst):
    modes = ({}, {"elide_defaults": TRUE})
    kw = modes[run.choose("elide", 2)]
    before, objs = run.freeze(v), set(reach(run, v, {}))
    inst += ", elided" if kw else ""
    where = "hyperstate/serde.py (asdict)"
    s1, err = attempt(lambda: call(run, "hyperstate.dumps", v, **kw))
    if err is not None:
        return ck.ob(R1, inst, None)
    ck.ob(R1, inst, run.freeze(v) is before and set(reach(run, v, {})) == objs, "dumping changes the object to %s" % show(run.freeze(v))[:200], where, ctx(run))
    s2, err = attempt(lambda: call(run, "hyperstate.dumps", v, **kw))
    ck.ob(R2, inst, err is None and run.freeze(s1) is run.freeze(s2), "a second dump gives a different result", where, ctx(run))
    a, err = attempt(lambda: call(run, "hyperstate.loads", cls, s1))
    if err is not None:
        return ck.ob(R3, inst, None)
    b, err = attempt(lambda: call(run, "hyperstate.loads", cls, s1))
    if err is not None:
        return ck.ob(R3, inst, False, "loading a second time fails: " + exc_text(run, err), loc(err.loc), ctx(run))
    for x, y, what in ((a, b, "two loaded objects"), (a, v, "the dumped and the loaded object")):
        sh = shared(run, x, y)
        ck.ob(R3, inst, not sh, "%s share %s" % (what, [show(run.freeze(o))[:80] for o in sh]), "hyperstate/serde.py (from_dict)", ctx(run))


def overridden(ck, ovs):
    def entry(run):
        i = lambda n: run.sym(n, {"int"})
        pairs = []
        if run.choose("f", 2):
            pairs.append(("f", struct("Fac", [("l", Seq("list", [i("l0")]))] + ([("s", struct("Leaf", [("a", i("sa"))]))] if run.choose("s", 2) else []))))
        pairs.append(("g", struct("Leaf", [("a", i("ga"))]) if run.choose("g", 2) else NONE))
        t = document(run, struct("Top", pairs))
        cls = run.lookup("al.Top")
        ov = Seq("list", [C(o) for o in ovs])
        f0 = run.freeze(ov)
        inst = "overrides %s" % ovs
        a, err = attempt(lambda: call(run, "hyperstate.loads", cls, t, overrides=ov))
        if err is not None:
            return ck.ob(R3, inst, None if ovs else False, exc_text(run, err), loc(err.loc), ctx(run))
        b, err = attempt(lambda: call(run, "hyperstate.loads", cls, t, overrides=ov))
        if err is not None:
            return ck.ob(R3, inst, False, "loading a second time fails: " + exc_text(run, err), loc(err.loc), ctx(run))
        ck.ob(R4, inst, run.freeze(ov) is f0, "loading changes the list of overrides", "hyperstate/hyperstate.py (OverridesDeserializer)", ctx(run))
        sh = shared(run, a, b) + shared(run, a, ov)
        ck.ob(R3, inst, not sh, "two loaded objects share %s" % [show(run.freeze(o))[:80] for o in sh], "hyperstate/serde.py (from_dict)", ctx(run))
        ck.ob(R3, inst + ", equal", same(run, a, b), "loading twice gives different objects", "", ctx(run))
    ck.explore(entry, Opts(faults=False, max_paths=500))


def manager(ck):
    """a manager neither changes the initial state nor shares the config between managers"""
    def entry(run):
        i = lambda n: run.sym(n, {"int"})
        d, e = directory(run, "ckdir"), directory(run, "other")
        p = T("join", run.pkey(d), C("f.ron"))
        run.vfs[p] = document(run, struct("Top", [("f", struct("Fac", [("l", Seq("list", [i("l0")]))])), ("g", NONE)]))
        L = lambda n: run.construct(run.lookup("al.Leaf"), [i(n)], {})
        st = run.construct(run.lookup("al.St"), [nat(run, "step"), L("a"), Seq("list", [L("b")])], {})
        ov = Seq("list", [C("a=5")])
        sf, of = run.freeze(st), run.freeze(ov)
        mk = lambda x: call(run, "al.manager", T("P", p), x, ov, st)

        def go():
            m, m2 = mk(e), mk(NONE)
            c = call(run, "al.config", m)
            cf = run.freeze(c)
            cd = call(run, "al.config_dict", m)
            call(run, "al.step", m)
            t = T("join", run.pkey(d), C("mine"))
            call(run, "al.checkpoint", m, t)
            return m, m2, c, cf, cd
        r, err = attempt(go)
        if err is not None:
            return ck.ob(R1, "manager", None, exc_text(run, err))
        m, m2, c, cf, cd = r
        ck.ob(R1, "checkpoint, config", run.freeze(c) is cf, "config_dict, step or checkpoint change the config", "hyperstate/hyperstate.py (StateManager)", ctx(run))
        ck.ob(R1, "checkpoint, state", run.freeze(st) is sf, "step or checkpoint change the state: %s" % show(run.freeze(st))[:200], "hyperstate/hyperstate.py (StateManager)", ctx(run))
        ck.ob(R4, "manager", run.freeze(ov) is of, "the list of overrides is changed", "hyperstate/hyperstate.py (StateManager)", ctx(run))
        sh = shared(run, cd, c)
        ck.ob(R3, "config_dict", not sh, "config_dict shares %s with the config" % [show(run.freeze(o))[:80] for o in sh], "hyperstate/serde.py (asdict)", ctx(run))
        sh = shared(run, call(run, "al.config", m2), c)
        ck.ob(R3, "two managers", not sh, "two managers share %s" % [show(run.freeze(o))[:80] for o in sh], "hyperstate/serde.py (from_dict)", ctx(run))
    ck.explore(entry, Opts(faults=False, max_paths=500))
