"""Values of schedules.

Schedules with 2 to 4 points are written with unknown, increasing positions and unknown values, with every choice of interpolation for each segment, into a config that a StateManager loads; the state attribute has
an unknown position that is assumed to be before the first point, at a point, between two neighbouring points, or after the last one.  The config value computed on each path, a rational function (and
cosine) of the unknowns, must be identical to the specified one.  When the normal forms differ, a violation is reported only with an assignment of the unknowns that follows the path and gives another number."""
import itertools
import random
from ..scen import *
from .. import tygen
from ..alg import equal, witness

R1, R2, R3, R4 = "C21.at-points", "C21.outside", "C21.between", "C21.malformed-rejected"
SRC = tygen.HEAD + '''
from hyperstate import StateManager


@dataclass
class Cfg:
    lr: float
    other: float = 0.5


@dataclass
class ICfg:
    n: int
    lr: float = 0.5


@dataclass
class St:
    step: int
    pos: float


def manager(cls, path, pos):
    def init(config, ctx):
        return St(0, pos)
    return StateManager(cls, St, init, init_path=path)


def value(m):
    m.state
    return m.config.lr


def later(m, pos):
    m.state.pos = pos
    m.step()
    return m.config.lr


def load(cls, text):
    return hyperstate.loads(cls, text)
'''
NAMES = [None, "lin", "cos", "step"]


def num(t):
    return T("numtext", t) if not is_c(t) else C(repr(t.a[0]))


def text(run, xs, ys, segs):
    """segs: the word before each point after the first (None: as before)"""
    parts = [C("pos: "), num(ys[0]), C("@"), num(xs[0])]
    for x, y, s in zip(xs[1:], ys[1:], segs):
        parts += [C(" " + (s + " " if s else "")), num(y), C("@"), num(x)]
    return run.cat(parts)


def op(o, a, b):
    return T("op", o, a, b)


def expected(xs, ys, segs, i, x):
    """value between the points i and i + 1"""
    word = "lin"
    for s in segs[:i + 1]:
        word = s or word
    t = op("/", op("-", x, xs[i]), op("-", xs[i + 1], xs[i]))
    if word == "step":
        return ys[i]
    w = op("-", C(1), t) if word == "lin" else op("/", op("+", C(1), T("call", "math.cos", op("*", t, C(3.141592653589793)))), C(2))
    return op("+", op("*", w, ys[i]), op("*", op("-", C(1), w), ys[i + 1]))


def setup(run, n, start):
    xs, ys = [], []
    for i in range(n):
        x = run.sym("x%d" % i, {"float"})
        if i == 0 and start == "zero":
            x = C(0)
        if i and not is_c(x):
            less(run, xs[-1], x) if not is_c(xs[-1]) else positive(run, x)
        xs.append(x)
        ys.append(run.sym("y%d" % i, {"float"}))
    if start == "positive":
        positive(run, xs[0])
    if start == "negative":
        run.assume(T("lt", xs[-1], C(0)), True)
        run.hi[xs[-1]] = (0, True)
    return xs, ys


def positive(run, x):
    run.assume(T("lt", C(0), x), True)
    run.lo[x] = (0, True)


def points(syms, facts, seed):
    """assignments respecting the known order of the unknowns"""
    r = random.Random(seed)
    order = [f for f, v in facts if f.op == "lt" and v]
    for k in range(4000):
        yield tuple(r.choice([-40, -7, -3.5, -1, -0.5, 0, 0.25, 0.5, 1, 2, 2.5, 3, 4, 5, 7, 8, 11, 16, 20, 33, 50]) + (r.random() if r.random() < 0.5 else 0) for _ in syms)


def sampled(run, xs, ys, x):
    """assignments in which the positions are ordered as on the path"""
    r = random.Random(7)
    syms = [s for s in list(xs) + list(ys) + [x] if not is_c(s)]
    neg = any(run.facts.get(T("lt", s, C(0))) for s in xs if not is_c(s))
    out = []
    for k in range(300):
        base = sorted(r.uniform(0.1, 60) for _ in xs)
        if is_c(xs[0]):
            base[0] = 0.0
        if neg:
            base = [b - 100 for b in base]
        env = dict(zip(xs, base))
        for y in ys:
            env[y] = r.uniform(-5, 5)
        if not is_c(x) and x not in env:
            cs = [base[0] - r.uniform(0.1, 20), base[-1] + r.uniform(0.1, 20), r.choice(base)] + [a + (b - a) * r.random() for a, b in zip(base, base[1:])]
            for c in cs:
                out.append(tuple(dict(env, **{}) .get(s, c) if s is not x else c for s in syms))
        else:
            out.append(tuple(env[s] for s in syms))
    return syms, out


def judge(ck, run, rule, inst, got, want, xs, ys, x):
    g = run.freeze(got)
    e = equal(g, want)
    if e:
        return ck.ob(rule, inst, True)
    syms, pts = sampled(run, xs, ys, x)
    w = witness(run.fact_log, g, want, syms, pts)
    if isinstance(w, dict):
        at = ", ".join("%s = %.4g" % (show(k).strip("<>"), v) for k, v in w.items())
        return ck.ob(rule, inst, False, "the value is %s, expected %s; they differ for %s" % (show(g)[:300], show(want)[:300], at), "hyperstate/schedule.py", ctx(run))
    ck.ob(rule, inst, None, "the formula %s cannot be compared" % show(g)[:200], "", ctx(run))


def run(ck):
    client_src(ck, "sch", SRC)
    jobs = []
    for n in (2, 3, 4) if not ck.thorough else (2, 3, 4, 5):
        combos = list(itertools.product(NAMES, repeat=n - 1))
        if n == 4 and not ck.thorough:
            combos = [c for i, c in enumerate(combos) if i % 5 == 0]
        if n == 5:
            combos = [c for i, c in enumerate(combos) if i % 7 == 0]
        for i, segs in enumerate(combos):
            starts = ("zero", "positive", "negative") if n == 2 or ck.thorough else (("zero", "positive", "negative")[i % 3],)
            for st in starts:
                jobs.append(lambda ck, a=(n, segs, st): one(ck, *a))
    jobs += [lambda ck, t=t: malformed(ck, t) for t in BAD]
    ck.map(jobs)
    ck.need(20, R1)
    ck.need(10, R2)
    ck.need(20, R3)
    ck.need(5, R4)


def positions(n):
    return [("before", 0)] + [("at", i) for i in range(n)] + [("between", i) for i in range(n - 1)] + [("after", n - 1)]


def one(ck, n, segs, start):
    for what, i in positions(n):
        for how in ("first access", "step"):
            inst = "%d points, %s, %s, %s %d, %s" % (n, "/".join(str(s) for s in segs), start, what, i, how)
            rule = {"before": R2, "after": R2, "at": R1, "between": R3}[what]

            def entry(run):
                xs, ys = setup(run, n, start)
                x = run.sym("x", {"float"})
                if what == "at":
                    x = xs[i]
                elif what == "before":
                    lt(run, x, xs[0])
                elif what == "after":
                    lt(run, xs[-1], x)
                else:
                    lt(run, xs[i], x)
                    lt(run, x, xs[i + 1])
                p = run.sym("docpath", {"str"})
                doc = doc_file(run, struct("Cfg", [("lr", text(run, xs, ys, segs))]), p)
                first = x if how == "first access" else xs[-1]
                got, err = attempt(lambda: call(run, "sch.value", call(run, "sch.manager", run.lookup("sch.Cfg"), doc, first)) if how == "first access" else
                                   call(run, "sch.later", call(run, "sch.manager", run.lookup("sch.Cfg"), doc, first), x))
                if err is not None:
                    return ck.ob(rule, inst, False, "evaluating the schedule fails: %s" % exc_text(run, err), loc(err.loc), ctx(run))
                want = {"before": ys[0], "after": ys[-1], "at": ys[i]}.get(what)
                judge(ck, run, rule, inst, got, expected(xs, ys, segs, i, x) if want is None else want, xs, ys, x)

            ck.explore(entry, Opts(faults=False, max_paths=60))


def lt(run, a, b):
    run.assume(T("lt", a, b), True)
    if is_c(a):
        run.lo[b] = (a.a[0], True)
    if is_c(b):
        run.hi[a] = (b.a[0], True)


BAD = ["pos: 1@0 foo 2@4", "pos: 1@0 2@b", "pos: 1@0 b@4", "pos: 1@0 2@", "pos: 1@0 @4", "pos: 1@0 2@4@5", "pos: 1@0 lin2@4", "pos: 1@0 LIN 2@4", "pos: 1@0 exp 2@4", "pos: 1@0 nan2@4"]


def malformed(ck, t):
    for cls, f in (("Cfg", "lr"), ("ICfg", "n")):
        def entry(run):
            got, err = attempt(lambda: call(run, "sch.load", run.lookup("sch." + cls), document(run, struct(cls, [(f, C(t))]))))
            ck.ob(R4, "%s in %s" % (t, cls), err is not None, "a malformed schedule is accepted", "hyperstate/schedule.py (_parse_schedule)", ctx(run))

        ck.explore(entry, Opts(faults=False, max_paths=60))
