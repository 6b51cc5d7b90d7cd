"""Schedules inside configs.

Config classes hold a scheduled number in every position up to the nesting depth in the evidence (field, optional field, struct, list, tuple, dict, and their combinations), next to values without a schedule and to a
second schedule that follows another attribute of the state.  A StateManager loads a document with these schedules and other, unknown values; the state attributes are unknown numbers assumed to be before, inside or
after the range of the schedule.  On each path of an access, a sequence of steps, a checkpoint, or a resume, the value found at the position must be the same function of the attribute as specified."""
from ..scen import *
from .. import schemas
from .. import tygen
from ..alg import equal, witness, evaluate

R = "C20."
R1, R2, R3, R4, R5, R6 = (R + x for x in ("first-access", "each-step", "before-checkpoint", "checkpoint-keeps-schedule", "others-unchanged", "file-keeps-schedule"))

A, B = "pos: 1@2 5@10", "step: 40@0 20@4"
HEAD = tygen.HEAD + '''
from pathlib import Path
from hyperstate import StateManager, Lazy, Serializable
import hyperstate.hyperstate as hh
''' + schemas.TOOLS + '''from hyperstate.schema.rewrite_rule import RenameField


@dataclass
class St:
    step: int
    pos: float


class Probe(Serializable):
    def __init__(self, config, get):
        self.config = config
        self.get = get
        self.seen = None

    def serialize(self):
        self.seen = self.get(self.config)
        return {}

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        return Probe(config, None)


@dataclass
class LSt(Lazy):
    step: int
    pos: float
    probe: Probe


def no_init(config, ctx):
    return None


def manager(cls, path, init=None, ckdir=None, overrides=None):
    return StateManager(cls, St, init or no_init, init_path=path, checkpoint_dir=ckdir, overrides=overrides)


def start(cls, path, n, pos, ckdir=None, overrides=None):
    def init(config, ctx):
        return St(n, pos)
    return manager(cls, path, init, ckdir, overrides)


def first(m, get):
    m.state
    return get(m.config)


def first_config(m, get):
    c = m.config
    m.state
    return get(c)


def advance(m, n, pos):
    m.state.step = n
    m.state.pos = pos
    m.step()


def steps(m, get, n1, p1, n2, p2):
    advance(m, n1, p1)
    advance(m, n2, p2)
    return get(m.config)


def probed(cls, path, get, ckdir, n1, p1, n2, p2):
    def init(config, ctx):
        return LSt(n1, p1, Probe(config, get))
    m = StateManager(cls, LSt, init, init_path=path, checkpoint_dir=ckdir)
    m.step()
    a = m.state.probe.seen
    m.state.step = n2
    m.state.pos = p2
    m.step()
    return (a, m.state.probe.seen)


def config(m):
    return m.config


@dataclass
class Kstr:
    d: Dict[str, float]


@dataclass
class Kint:
    d: Dict[int, float]


def kget(c):
    return c.d
'''


class Pos:
    """a position: declarations, the annotation of the field, the document, and the expression that reads it"""
    def __init__(self, ann, read, doc, decl="", leaf="float", also=()):
        self.ann, self.read, self.doc, self.decl, self.leaf = ann, read, doc, decl, leaf
        self.also = list(also)      # the expressions that read the values next to it

    def name(self):
        return self.ann


def leaf(kind):
    return Pos(kind, "%s", lambda run, s: s, "", kind)


def wraps(p):
    n = "S" + "".join(c if c.isalnum() else "_" for c in p.ann)
    d = p.decl + '''

@dataclass
class %s:
    v: %s
    w: float = 7.5
''' % (n, p.ann)
    def u(run, kind=p.leaf):
        return C(B) if run.tags.get("siblings") else run.sym("u%d" % run.fresh("u"), {kind})

    def sub(e, *more):
        return [q % e for q in p.also] + list(more)
    yield Pos(n, p.read % "%s.v", lambda run, s: struct(n, [("v", p.doc(run, s)), ("w", u(run, "float"))]), d, p.leaf, sub("%s.v", "%s.w"))
    if not p.ann.startswith("Optional"):
        yield Pos("Optional[%s]" % p.ann, p.read, p.doc, p.decl, p.leaf, p.also)
    yield Pos("List[%s]" % p.ann, p.read % "%s[1]", lambda run, s: Seq("list", [p.doc(run, u(run)), p.doc(run, s)]), p.decl, p.leaf, sub("%s[1]", p.read % "%s[0]"))
    yield Pos("Tuple[int, %s, float]" % p.ann, p.read % "%s[1]", lambda run, s: Seq("tuple", [C(3), p.doc(run, s), u(run, "float")]), p.decl, p.leaf, sub("%s[1]", "%s[2]"))
    yield Pos("Dict[str, %s]" % p.ann, p.read % '%s["k"]', lambda run, s: mkdict([("j", p.doc(run, u(run))), ("k", p.doc(run, s))]), p.decl, p.leaf, sub('%s["k"]', p.read % '%s["j"]'))


def positions(depth):
    level = [leaf("float"), leaf("int")]
    out = list(level)
    for _ in range(depth - 1):
        level = [q for p in level for q in wraps(p)]
        out += level
    return out


def source(ps):
    out = [HEAD]
    done = set()
    for i, p in enumerate(ps):
        for d in p.decl.split("\n\n@dataclass\n"):
            if d.strip() and d not in done:
                done.add(d)
                out.append("\n@dataclass\n" + d)
        out.append("""

@dataclass
class C%(i)d:
    f: %(ann)s
    second: float
    plain: float
    name: str = "n"
    more: int = 3


def get%(i)d(c):
    return (%(read)s, c.second)


def also%(i)d(c):
    return (%(read)s,%(also)s)


def others%(i)d(c):
    return (c.plain, c.name, c.more)


@dataclass
class V%(i)d(Versioned):
    g: %(ann)s
    second: float
    plain: float
    name: str = "n"
    more: int = 3
    dflt: float = 1.0

    @classmethod
    def version(clz):
        return 1

    @classmethod
    def upgrade_rules(clz):
        return {0: [RenameField(("f",), ("g",))]}


def vget%(i)d(c):
    return (%(vread)s, c.second, c.dflt)
""" % {"i": i, "ann": p.ann, "read": p.read % "c.f", "vread": p.read % "c.g", "also": ", ".join(q % "c.f" for q in p.also)})
    return "\n".join(out)


CASES = [("before", lambda: 1), ("inside", None), ("after", lambda: 5)]


def pos_sym(run, name, case):
    x = run.sym(name, {"float"})
    if case == "before":
        le(run, x, C(2))
    elif case == "after":
        run.assume(T("lt", C(10), x), True)
        run.lo[x] = (10, True)
    else:
        run.assume(T("lt", C(2), x), True)
        run.lo[x] = (2, True)
        run.assume(T("lt", x, C(10)), True)
        run.hi[x] = (10, True)
    return x


def le(run, x, c):
    run.assume(T("lt", x, c), True)
    run.hi[x] = (c.a[0], True)


def want_a(x, case, kind):
    v = C(1) if case == "before" else C(5) if case == "after" else T("op", "+", C(1), T("op", "*", C(4), T("op", "/", T("op", "-", x, C(2)), C(8))))
    return T("int", v) if kind == "int" and case == "inside" else v


def want_b(n):
    return T("op", "-", C(40), T("op", "*", C(5), n))


def step_sym(run, name, lo, hi):
    n = run.sym(name, {"int"})
    run.lo[n] = (lo, False)
    run.hi[n] = (hi, False)
    return n


def judge(ck, run, rule, inst, got, want, syms, where="hyperstate/hyperstate.py (_apply_schedules)"):
    got = run.deref(got)
    g = run.freeze(got)
    if equal(g, want):
        return ck.ob(rule, inst, True)
    if not isinstance(g, T) or run.kinds(got) is not None and not (run.kinds(got) & {"int", "float"}):
        return ck.ob(rule, inst, False, "the value is %s, expected %s" % (show(g)[:200], show(want)[:200]), where, ctx(run))
    pts = []
    import random
    r = random.Random(3)
    for k in range(600):
        pts.append(tuple(r.choice([1, 2, 3]) if run.kinds(s) == {"int"} else r.choice([r.uniform(-20, 2), r.uniform(2, 10), r.uniform(10, 50)]) for s in syms))
    w = witness(run.fact_log, g, want, syms, pts)
    if isinstance(w, dict):
        at = ", ".join("%s = %.4g" % (show(k).strip("<>"), v) for k, v in w.items())
        return ck.ob(rule, inst, False, "the value is %s, expected %s; they differ for %s" % (show(g)[:200], show(want)[:200], at), where, ctx(run))
    ck.ob(rule, inst, None, "%s cannot be compared" % show(g)[:200], "", ctx(run))


def doc(run, p, cls, plain, path="docpath", f="f", version=None, rest=()):
    pairs = [(f, p.doc(run, C(A))), ("second", C(B)), ("plain", plain)] + list(rest)
    if version is not None:
        pairs.append(("version", C(version)))
    pt = run.sym(path, {"str"})
    return doc_file(run, struct(cls, pairs), pt)


def run(ck):
    ps = positions(4 if ck.thorough else 3)
    client_src(ck, "sch", source(ps))
    jobs = []
    for i, p in enumerate(ps):
        for case in ("inside", "before", "after") if p.ann.count("[") < 2 or ck.thorough else ("inside",):
            jobs.append(lambda ck, a=(i, p, case): access(ck, *a))
            jobs.append(lambda ck, a=(i, p, case): stepping(ck, *a))
        jobs.append(lambda ck, a=(i, p): probed(ck, *a))
        jobs.append(lambda ck, a=(i, p): resumed(ck, *a))
        jobs.append(lambda ck, a=(i, p): upgraded(ck, *a))
        if p.also:
            jobs.append(lambda ck, a=(i, p): siblings(ck, *a))
        jobs.append(lambda ck, a=(i, p): unversioned_dump(ck, *a))
    jobs += [lambda ck, a=a: odd_key(ck, *a) for a in (("str", "a.b"), ("str", "a[0]"), ("str", "a b"), ("str", ""), ("int", 3))]
    ck.map(jobs)
    for r in (R1, R2, R3, R4, R5, R6):
        ck.need(10, r)


OPT = dict(faults=False, max_paths=80)


def access(ck, i, p, case):
    for how in ("first", "first_config"):
        inst = "%s, %s%s" % (p.ann, case, ", config read before" if how == "first_config" else "")

        def entry(run):
            x, n, plain = pos_sym(run, "x", case), step_sym(run, "n", 1, 3), run.sym("plain", {"float"})
            d = doc(run, p, "C%d" % i, plain)
            m = call(run, "sch.start", run.lookup("sch.C%d" % i), d, n, x)
            got, err = attempt(lambda: call(run, "sch." + how, m, run.lookup("sch.get%d" % i)))
            if err is not None:
                return ck.ob(R1, inst, False, "the first access fails: " + exc_text(run, err), loc(err.loc), ctx(run))
            a, b = items(got)
            judge(ck, run, R1, inst, a, want_a(x, case, p.leaf), [x, n])
            judge(ck, run, R1, inst + ", other schedule", b, want_b(n), [x, n])
            others(ck, run, i, m, plain, inst)

        ck.explore(entry, Opts(**OPT))


def others(ck, run, i, m, plain, inst, more=3):
    o = items(call(run, "sch.others%d" % i, call(run, "sch.config", m)))
    for v, w, what in zip(o, (plain, C("n"), C(more) if isinstance(more, int) else more), ("plain", "name", "more")):
        ck.ob(R5, inst + ", " + what, same(run, v, w), "the value without a schedule becomes %s" % show(run.freeze(v))[:100], "hyperstate/hyperstate.py (_apply_schedules)", ctx(run))


def odd_key(ck, kt, key):
    """dictionary keys of any form"""
    inst = "Dict[%s, float], key %r" % (kt, key)

    def entry(run):
        x, y = pos_sym(run, "x", "inside"), pos_sym(run, "y", "inside")
        u = run.sym("u", {"float"})
        d = Dict()
        for k, v in ((C("j" if kt == "str" else 8), u), (C(key), C(A))):
            d.entries[k] = (k, v)
        m = call(run, "sch.start", run.lookup("sch.K%s" % kt), doc_file(run, struct("K" + kt, [("d", d)]), run.sym("docpath", {"str"})), C(1), x)

        def go():
            call(run, "sch.first", m, run.lookup("sch.kget"))
            call(run, "sch.advance", m, C(2), y)
            return call(run, "sch.first", m, run.lookup("sch.kget"))
        got, err = attempt(go)
        if err is not None:
            return ck.ob(R2, inst, False, "following the schedule fails: " + exc_text(run, err), loc(err.loc), ctx(run))
        e = {k: v[1] for k, v in got.entries.items() if v[1] is not Dict.TOMB}
        if set(e) != set(d.entries):
            return ck.ob(R2, inst, False, "the dictionary has the keys %s" % [show(k) for k in e], "hyperstate/hyperstate.py (_set_keys)", ctx(run))
        judge(ck, run, R2, inst, e[C(key)], want_a(y, "inside", "float"), [x, y])

    ck.explore(entry, Opts(**OPT))


def stepping(ck, i, p, case):
    inst = "%s, %s" % (p.ann, case)

    def entry(run):
        x1, x2 = run.sym("x1", {"float"}), pos_sym(run, "x2", case)
        n1, n2, plain = step_sym(run, "n1", 1, 3), step_sym(run, "n2", 1, 3), run.sym("plain", {"float"})
        m = call(run, "sch.start", run.lookup("sch.C%d" % i), doc(run, p, "C%d" % i, plain), C(0), C(3.5))
        got, err = attempt(lambda: call(run, "sch.steps", m, run.lookup("sch.get%d" % i), n1, x1, n2, x2))
        if err is not None:
            return ck.ob(R2, inst, False, "step() fails: " + exc_text(run, err), loc(err.loc), ctx(run))
        a, b = items(got)
        judge(ck, run, R2, inst, a, want_a(x2, case, p.leaf), [x1, x2, n1, n2])
        judge(ck, run, R2, inst + ", other schedule", b, want_b(n2), [x1, x2, n1, n2])
        others(ck, run, i, m, plain, inst)

    ck.explore(entry, Opts(**OPT))


def siblings(ck, i, p):
    """every value around the position has a schedule too"""
    inst = p.ann + ", schedules next to it"

    def entry(run):
        run.tags["siblings"] = True
        d = directory(run, "ckdir")
        x1, x2, x3, plain = pos_sym(run, "x1", "inside"), pos_sym(run, "x2", "inside"), pos_sym(run, "x3", "inside"), run.sym("plain", {"float"})
        cls, get = run.lookup("sch.C%d" % i), run.lookup("sch.also%d" % i)
        seen = []

        def go():
            m = call(run, "sch.start", cls, doc(run, p, "C%d" % i, plain), C(1), x1, d)
            seen.append((R1, "first access", x1, 1, call(run, "sch.first", m, get)))
            call(run, "sch.advance", m, C(2), x2)
            seen.append((R2, "step", x2, 2, call(run, "sch.first", m, get)))
            m = call(run, "sch.manager", cls, NONE, NONE, d)
            seen.append((R4, "resumed", x2, 2, call(run, "sch.first", m, get)))
            call(run, "sch.advance", m, C(3), x3)
            seen.append((R4, "resumed, next step", x3, 3, call(run, "sch.first", m, get)))
        _, err = attempt(go)
        if err is not None:
            return ck.ob(R2, inst, False, "following the schedules fails: " + exc_text(run, err), loc(err.loc), ctx(run))
        for rule, what, x, n, got in seen:
            vals = items(got)
            judge(ck, run, rule, "%s, %s" % (inst, what), vals[0], want_a(x, "inside", p.leaf), [x1, x2, x3])
            for q, v in zip(p.also, vals[1:]):
                judge(ck, run, rule, "%s, %s, %s" % (inst, what, q % "f"), v, C(40 - 5 * n), [x1, x2, x3])

    ck.explore(entry, Opts(**OPT))


def probed(ck, i, p):
    """the value seen while the state is written"""
    inst = p.ann

    def entry(run):
        d = directory(run, "ckdir")
        x1, x2, plain = pos_sym(run, "x1", "inside"), pos_sym(run, "x2", "inside"), run.sym("plain", {"float"})
        got, err = attempt(lambda: call(run, "sch.probed", run.lookup("sch.C%d" % i), doc(run, p, "C%d" % i, plain), run.lookup("sch.get%d" % i), d, C(1), x1, C(2), x2))
        if err is not None:
            return ck.ob(R3, inst, False, "writing the checkpoint fails: " + exc_text(run, err), loc(err.loc), ctx(run))
        for k, x in zip(range(2), (x1, x2)):
            seen = items(got)[k]
            if items(seen) is None:
                ck.ob(R3, inst, None, "the state is not written")
                continue
            judge(ck, run, R3, inst + ", step %d" % (k + 1), items(seen)[0], want_a(x, "inside", p.leaf), [x1, x2])

    ck.explore(entry, Opts(**OPT))


def resumed(ck, i, p):
    inst = p.ann

    def entry(run):
        d = directory(run, "ckdir")
        x1, x2, x3, plain = pos_sym(run, "x1", "inside"), pos_sym(run, "x2", "inside"), pos_sym(run, "x3", "inside"), run.sym("plain", {"float"})
        cls, get = run.lookup("sch.C%d" % i), run.lookup("sch.get%d" % i)
        how = run.choose("resume from", 3)

        def go():
            m = call(run, "sch.start", cls, doc(run, p, "C%d" % i, plain), C(0), C(3.5), d)
            call(run, "sch.advance", m, C(1), x1)
            if how == 0:
                m2 = call(run, "sch.manager", cls, NONE, NONE, d)
            elif how == 1:
                m2 = call(run, "sch.manager", cls, T("P", under(d, "latest-step000000000001")))
            else:
                m1 = call(run, "sch.manager", cls, NONE, NONE, d)
                call(run, "sch.advance", m1, C(3), x3)
                m2 = call(run, "sch.manager", cls, NONE, NONE, d)
            a = call(run, "sch.first", m2, get)
            call(run, "sch.advance", m2, C(2), x2)
            return a, call(run, "sch.first", m2, get), m2
        r, err = attempt(go)
        if err is not None:
            return ck.ob(R4, inst, False, "resuming fails: " + exc_text(run, err), loc(err.loc), ctx(run))
        a, b, m2 = r
        x, n = (x3, 3) if how == 2 else (x1, 1)
        tag = inst + ", " + ("checkpoint_dir", "init_path", "twice")[how]
        judge(ck, run, R4, tag, items(a)[0], want_a(x, "inside", p.leaf), [x1, x2, x3])
        judge(ck, run, R4, tag + ", other schedule", items(a)[1], C(40 - 5 * n), [x1, x2, x3])
        judge(ck, run, R4, tag + ", next step", items(b)[0], want_a(x2, "inside", p.leaf), [x1, x2, x3])
        judge(ck, run, R4, tag + ", next step, other schedule", items(b)[1], C(30), [x1, x2, x3])
        others(ck, run, i, m2, plain, tag)

    ck.explore(entry, Opts(**OPT))


def unversioned_dump(ck, i, p):
    """overrides: a schedule given as override works like one in the file, a number replaces the schedule"""
    inst = p.ann

    def entry(run):
        x, n, plain = pos_sym(run, "x", "inside"), step_sym(run, "n", 1, 3), run.sym("plain", {"float"})
        ov = Seq("list", [C('plain="%s"' % A), C("second=8.5"), C("more=9")])
        m = call(run, "sch.start", run.lookup("sch.C%d" % i), doc(run, p, "C%d" % i, plain), n, x, NONE, ov)
        got, err = attempt(lambda: call(run, "sch.first", m, run.lookup("sch.get%d" % i)))
        if err is not None:
            return ck.ob(R1, inst + ", override", False, "the first access fails: " + exc_text(run, err), loc(err.loc), ctx(run))
        judge(ck, run, R1, inst + ", override", items(got)[0], want_a(x, "inside", p.leaf), [x, n])
        judge(ck, run, R5, inst + ", schedule replaced by an override", items(got)[1], C(8.5), [x, n])
        o = items(call(run, "sch.others%d" % i, call(run, "sch.config", m)))
        judge(ck, run, R1, inst + ", schedule in an override", o[0], want_a(x, "inside", "float"), [x, n])

    ck.explore(entry, Opts(**OPT))


def upgraded(ck, i, p):
    """files rewritten by the upgrade command still contain the schedules"""
    inst = p.ann

    def entry(run):
        x, n, plain = pos_sym(run, "x", "inside"), step_sym(run, "n", 1, 3), run.sym("plain", {"float"})
        old = run.choose("version", 2) == 0
        d = doc(run, p, "V%d" % i, plain, f="f" if old else "g", version=0 if old else 1, rest=[("dflt", C(A))])
        cls = run.lookup("sch.V%d" % i)

        def go():
            call(run, "sch.rewrite_config", d, cls, C(bool(run.choose("include defaults", 2))))
            m = call(run, "sch.start", cls, d, n, x)
            return call(run, "sch.first", m, run.lookup("sch.vget%d" % i))
        got, err = attempt(go)
        if err is not None:
            return ck.ob(R6, inst, False, "upgrading or loading fails: " + exc_text(run, err), loc(err.loc), ctx(run))
        judge(ck, run, R6, inst, items(got)[0], want_a(x, "inside", p.leaf), [x, n], "hyperstate/schema/schema_checker.py (_upgrade_config)")
        judge(ck, run, R6, inst + ", starting at the default", items(got)[2], want_a(x, "inside", "float"), [x, n], "hyperstate/hyperstate.py (ElideDefaults)")
        judge(ck, run, R6, inst + ", other schedule", items(got)[1], want_b(n), [x, n], "hyperstate/schema/schema_checker.py (_upgrade_config)")

    ck.explore(entry, Opts(**OPT))
