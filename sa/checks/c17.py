"""Lazy fields.

A checkpoint with arbitrary content is resumed, and all sequences (to the stated length) of the operations read a field, assign a field, step() with a new key, resume, read the context or other fields are interpreted.
A model of the specification runs along: per field, not loaded (with the persisted data), or loaded with one object.  Each read must give the object and open exactly the file the model says, or none."""
import itertools
from ..scen import *
from .. import tygen

R1, R2, R3, R4, R5 = ("C17." + x for x in ("read-gives-persisted", "loads-once", "assignment-sticks", "no-other-field", "failed-load-retried"))
R6 = "C17.every-position"
SRC = tygen.HEAD + '''
from hyperstate import StateManager, Lazy, Serializable, blob, load, dump


@dataclass
class Cfg:
    lr: float


class A(Serializable):
    def __init__(self, v, config=None, state=None, ctx=None):
        self.v = v
        self.config = config
        self.state = state
        self.ctx = ctx

    def serialize(self):
        return {"v": self.v}

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        return A(state_dict["v"], config, state, ctx)


class B(Serializable):
    def __init__(self, v, a=None, config=None, state=None, ctx=None):
        self.v = v
        self.a = a
        self.config = config
        self.state = state
        self.ctx = ctx

    def serialize(self):
        return [self.v, "b"]

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        return B(state_dict[0], state.a, config, state, ctx)


class Picky(Serializable):
    def __init__(self, v):
        self.v = v

    def serialize(self):
        return self.v

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        if "device" not in ctx:
            raise KeyError("device")
        return Picky(state_dict)


@dataclass
class St(Lazy):
    step: int
    a: A
    b: B
    c: A
    note: str


@dataclass
class Pst(Lazy):
    step: int
    p: Picky
    q: Picky


def manager(ckdir, n, a, b, c, note, lr):
    def init(config, ctx):
        return St(n, A(a), B(b), A(c), note)
    m = StateManager(Cfg, St, init, checkpoint_dir=ckdir, overrides=["lr=0.5"])
    m.config.lr = lr
    return m


def resume(ckdir, ctxval, path=None):
    m = StateManager(Cfg, St, no_init, init_path=path, checkpoint_dir=ckdir)
    m.set_deserialize_ctx("device", ctxval)
    return m


def no_init(config, ctx):
    return None


def picky(ckdir, v, w):
    def init(config, ctx):
        return Pst(1, Picky(v), Picky(w))
    m = StateManager(Cfg, Pst, init, checkpoint_dir=ckdir, overrides=["lr=0.5"])
    m.step()
    return StateManager(Cfg, Pst, no_init, checkpoint_dir=ckdir)


def set_ctx(m, v):
    m.state.set_deserialize_ctx("device", v)


def read(m, name):
    return getattr(m.state, name)


def read_a(m):
    return m.state.a


def read_b(m):
    return m.state.b


def read_c(m):
    return m.state.c


def read_p(m):
    return m.state.p


def read_q(m):
    return m.state.q


def parts(o):
    return (o.v, o.config, o.state, o.ctx)


def plain(m):
    return (m.state.step, m.state.note, m.config.lr)


def config(m):
    return m.config


def state(m):
    return m.state


def step(m):
    m.step()


def next_step(m, n):
    m.state.step = n
    m.step()


def write_a(m, v):
    m.state.a = A(v)
    return m.state


def write_b(m, v):
    m.state.b = B(v)


def write_c(m, v):
    m.state.c = A(v)


def new_a(v):
    return A(v)


def new_b(v):
    return B(v)


def put_a(m, o):
    m.state.a = o


def put_b(m, o):
    m.state.b = o


def put_c(m, o):
    setattr(m.state, "c", o)
'''
POS = [("A", "x", "plain"), ("Optional[A]", "x", "plain"), ("List[A]", "x[0]", "list"), ("Tuple[A, int]", "x[0]", "tuple"), ("Dict[str, A]", 'x["k"]', "dict"),
       ("Box", "x.last", "box"), ("List[Box]", "x[1].last", "boxes"), ("Dict[str, Box]", 'x["k"].last', "dbox"), ("LBox", "x.last", "lbox"),
       ("blob(Ext, mixin=Mix)", "x", "blob"), ("Optional[blob(Ext, mixin=Mix)]", "x", "blob"), ("Dict[str, blob(Ext, mixin=Mix)]", 'x["k"]', "blobs")]
SRC += '''

@dataclass
class Box:
    n: int
    last: A


@dataclass
class LBox(Lazy):
    n: int
    last: A


def mk_plain(v):
    return A(v)


def mk_list(v):
    return [A(v)]


def mk_tuple(v):
    return (A(v), 3)


def mk_dict(v):
    return {"j": A(1), "k": A(v)}


def mk_box(v):
    return Box(4, A(v))


def mk_lbox(v):
    return LBox(4, A(v))


class Ext:
    def __init__(self, v):
        self.v = v

    def twice(self):
        return self.v


class Mix(Serializable):
    def serialize(self):
        return {"ext": self.v}

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        o = blob(Ext, mixin=Mix)(state_dict["ext"])
        o.config = config
        o.ctx = ctx
        return o


def mk_blob(v):
    return blob(Ext, mixin=Mix)(v)


def mk_blobs(v):
    return {"k": blob(Ext, mixin=Mix)(v)}


def mk_boxes(v):
    return [Box(4, A(1)), Box(5, A(v))]


def mk_dbox(v):
    return {"k": Box(4, A(v))}


@dataclass
class Coll(Lazy):
    step: int
    a: List[A]
    a_0: A


def collide(ckdir, v, w):
    def init(config, ctx):
        return Coll(1, [A(v)], A(w))
    m = StateManager(Cfg, Coll, init, checkpoint_dir=ckdir, overrides=["lr=0.5"])
    m.step()
    m = StateManager(Cfg, Coll, no_init, checkpoint_dir=ckdir)
    return (m.state.a[0].v, m.state.a_0.v)


def loaded(dir):
    return load(St, dir / "latest-step000000000001" / "state.ron")


def rewritten(path, v, w, lazy):
    cls = LBox if lazy else Box
    dump(cls(1, A(v)), path)
    first = load(cls, path)
    a = first.last.v
    first.last.v = 5
    dump(cls(2, A(w)), path)
    second = load(cls, path)
    third = load(cls, path)
    return (a, second.last.v, third.last.v, first.last.v, second.last is third.last)


def ext_checks(v):
    o = blob(Ext, mixin=Mix)(v)
    return (o.v, o.twice(), isinstance(o, Ext), isinstance(o, Serializable), o.serialize()["ext"])


def loaded_ctx(s, dev, x, y):
    s.set_deserialize_ctx("device", dev)
    s.set_deserialize_ctx("second", x)
    s.set_deserialize_ctx("device", y)


def loaded_read(s, name):
    return getattr(s, name)
'''
for i, (ann, rd, mk) in enumerate(POS):
    for b in ("Plain", "Lazy"):
        SRC += '''

@dataclass
class %(b)s%(i)d%(base)s:
    step: int
    first: A
    x: %(ann)s
    last: A


def run_%(b)s%(i)d(ckdir, v, p, q, dev):
    def init(config, ctx):
        return %(b)s%(i)d(1, A(p), mk_%(mk)s(v), A(q))
    m = StateManager(Cfg, %(b)s%(i)d, init, checkpoint_dir=ckdir, overrides=["lr=0.5"])
    m.step()
    m = resume_%(b)s%(i)d(ckdir, dev)
    o = m.state.%(rd)s
    r = (o.v, m.state.first.v, m.state.last.v, o.config is m.config, o.ctx["device"], m.state.step)
    m.state.%(rd)s.v = 77
    m.state.step = 2
    m.step()
    m = resume_%(b)s%(i)d(ckdir, dev)
    return r + (m.state.last.v, m.state.first.v, m.state.%(rd)s.v)


def resume_%(b)s%(i)d(ckdir, dev):
    m = StateManager(Cfg, %(b)s%(i)d, no_init, checkpoint_dir=ckdir)
    m.set_deserialize_ctx("device", dev)
    return m
''' % {"b": b, "i": i, "ann": ann, "rd": rd, "mk": mk, "base": "(Lazy)" if b == "Lazy" else ""}
OPS = ["ra", "rb", "rc", "wa", "wb", "wc", "S", "R", "P"]


def opened(run, n):
    """files opened since event n, as texts of their last path component"""
    return [run.pkey(e.args[0]) for e in run.events[n:] if e.op == "open" and not (len(e.args) > 1 and is_str_c(e.args[1]) and set(e.args[1].a[0]) & set("wax+"))]


def blobs(run, n):
    out = []
    for p in opened(run, n):
        last = p.a[-1] if isinstance(p, T) and p.op == "join" else p
        out.append(last.a[0] if is_str_c(last) else show(last))
    return [x for x in out if not x.endswith(".ron")]


class Model:
    def __init__(self, vals):
        self.cur = dict(vals)          # field -> value
        self.saved = dict(vals)
        self.obj = {}                  # field -> loaded or assigned object

    def load(self, f):
        """fields whose file a read of f opens"""
        out = []
        if f not in self.obj:
            out.append(f)
            if f == "b":
                out += self.load("a")
        return out


def histories(n):
    for h in itertools.product(OPS, repeat=n):
        # canonical: assignments to c only matter with c; skip sequences in which nothing is observed at the end
        if h[-1] in ("wa", "wb", "wc", "R", "S", "P") or all(o in ("R", "P") for o in h[:-1]) and n > 2:
            continue
        if any(x == y and x in ("R", "P") for x, y in zip(h, h[1:])):
            continue
        yield h


def run(ck):
    client_src(ck, "lz", SRC)
    depth = 5 if ck.thorough else 4
    hs = sorted(histories(depth))
    groups = [hs[i::64] for i in range(64)]
    ck.map([lambda ck, g=g: [history(ck, h) for h in g] for g in groups] + [lambda ck, k=k: retried(ck, k) for k in range(3)] +
           [lambda ck, a=(i, b): position(ck, *a) for i in range(len(POS)) for b in ("Plain", "Lazy")] + [collide, mixed] + [lambda ck, z=z, t=t: rewritten(ck, z, t) for z in (False, True) for t in (False, True)] +
           [lambda ck, c=c, f=f: standalone(ck, c, f) for c in (False, True) for f in ("a", "b", "c", "ba", "cb")])
    ck.need(10, R6)
    ck.need(40, R1)
    ck.need(40, R2)
    ck.need(20, R3)
    ck.need(40, R4)
    ck.need(1, R5)


def history(ck, h):
    def entry(run):
        d = directory(run, "ckdir")
        v = {f: run.sym("v" + f, {"int"}) for f in "abc"}
        note, lr, ctxv = run.sym("note", {"str"}), run.sym("lr", {"float"}), run.sym("device", {"str"})
        m = call(run, "lz.manager", d, C(1), v["a"], v["b"], v["c"], note, lr)
        call(run, "lz.step", m)
        m = call(run, "lz.resume", d, ctxv)
        mod = Model(v)
        key, fresh = 1, 0
        n = len(run.events)
        st, err = attempt(lambda: call(run, "lz.state", m))
        if err is not None:
            return ck.ob(R1, "access of the state", False, exc_text(run, err), loc(err.loc), ctx(run))
        ck.ob(R4, "access of the state", not blobs(run, n), "accessing the state reads %s" % blobs(run, n), "hyperstate/lazy.py", ctx(run))
        for i, op in enumerate(h):
            tag = " ".join(h[max(0, i - 2):i + 1])
            n = len(run.events)
            if op == "P":
                got, err = attempt(lambda: call(run, "lz.plain", m))
                if err is not None:
                    return ck.ob(R4, tag, False, exc_text(run, err), loc(err.loc), ctx(run))
                ck.ob(R4, tag, not blobs(run, n), "reading other fields reads %s" % blobs(run, n), "hyperstate/lazy.py", ctx(run))
                s = [same(run, a, b) for a, b in zip(items(got), (C(key), note, lr))]
                ck.ob(R4, tag + ", value", False if False in s else None if None in s else True, "the other fields are %s" % show(run.freeze(got))[:150], "hyperstate/lazy.py", ctx(run))
            elif op[0] == "r":
                f = op[1]
                want = mod.load(f)
                got, err = attempt(lambda: call(run, "lz.read_" + f, m))
                if err is not None:
                    return ck.ob(R1, tag, False, "reading fails: " + exc_text(run, err), loc(err.loc), ctx(run))
                fs = blobs(run, n)
                ck.ob(R2 if not want else R4, tag, fs == ["state.%s.msgpack" % x for x in want] or sorted(fs) == sorted("state.%s.msgpack" % x for x in want), "reading %s opens %s, expected %s" % (f, fs, want), "hyperstate/lazy.py (Lazy.__getattribute__)", ctx(run))
                got = run.deref(got)
                if f in mod.obj:
                    ck.ob(R2, tag + ", same object", got is mod.obj[f], "reading again gives another object: %s" % show(run.freeze(got))[:150], "hyperstate/lazy.py (Lazy.__getattribute__)", ctx(run))
                elif not isinstance(got, Inst):
                    return ck.ob(R1, tag, False, "the field is %s" % show(run.freeze(got))[:150], "hyperstate/lazy.py", ctx(run))
                else:
                    mod.obj[f] = got
                    p = items(call(run, "lz.parts", got))
                    for x, w, what in ((p[0], mod.saved[f], "data"), (p[1], call(run, "lz.config", m), "config"), (p[2], call(run, "lz.state", m), "state")):
                        ck.ob(R1, "%s, %s" % (tag, what), (same(run, x, w) if what == "data" else run.deref(x) is run.deref(w)), "deserialized with the %s %s, expected %s" % (what, show(run.freeze(x))[:100], show(run.freeze(w))[:100]), "hyperstate/lazy.py (Lazy.__getattribute__)", ctx(run))
                    c = run.deref(p[3])
                    e = {k: x[1] for k, x in c.entries.items()} if isinstance(c, Dict) else None
                    ck.ob(R1, tag + ", context", e is not None and set(e) == {C("device")} and same(run, e[C("device")], ctxv), "deserialized with the context %s" % show(run.freeze(c))[:100], "hyperstate/hyperstate.py (StateManager.state)", ctx(run))
                    if f == "b" and "a" not in mod.obj:
                        a = run.deref(run.getattr_(got, "a"))
                        if isinstance(a, Inst):
                            mod.obj["a"] = a
                            ck.ob(R1, tag + ", nested", same(run, run.getattr_(a, "v"), mod.saved["a"]), "a field read during deserialization is %s" % show(run.freeze(a))[:100], "hyperstate/lazy.py", ctx(run))
                        else:
                            return ck.ob(R1, tag + ", nested", False, "a field read during deserialization is %s" % show(run.freeze(a))[:100], "hyperstate/lazy.py", ctx(run))
                ck.ob(R3, tag, same(run, run.getattr_(got, "v"), mod.cur[f]), "the value read is %s, expected %s" % (show(run.freeze(got))[:150], show(mod.cur[f])), "hyperstate/lazy.py", ctx(run))
            elif op[0] == "w":
                f = op[1]
                fresh += 1
                mod.cur[f] = run.sym("w%d" % fresh, {"int"})
                o = call(run, "lz.new_" + ("b" if f == "b" else "a"), mod.cur[f])
                _, err = attempt(lambda: call(run, "lz.put_" + f, m, o))
                if err is not None:
                    return ck.ob(R3, tag, False, "assigning fails: " + exc_text(run, err), loc(err.loc), ctx(run))
                ck.ob(R4, tag, not blobs(run, n), "assigning %s reads %s" % (f, blobs(run, n)), "hyperstate/lazy.py (Lazy.__setattr__)", ctx(run))
                mod.obj[f] = run.deref(o)
            elif op == "S":
                key += 1
                _, err = attempt(lambda: call(run, "lz.next_step", m, C(key)))
                if err is not None:
                    return ck.ob(R3, tag, False, "step() fails: " + exc_text(run, err), loc(err.loc), ctx(run))
                want = [f for f in "abc" if f not in mod.obj]
                fs = blobs(run, n)
                ck.ob(R2, tag, sorted(fs) == sorted("state.%s.msgpack" % f for f in want), "writing the checkpoint opens %s, expected each of %s once" % (fs, want), "hyperstate/lazy.py (Lazy.__getattribute__)", ctx(run))
                for f in want:      # loaded by the write
                    x = run.deref(call(run, "lz.read_" + f, m))
                    mod.obj[f] = x
                mod.saved = dict(mod.cur)
            else:
                m = call(run, "lz.resume", d, ctxv)
                # a new process: what was not saved is gone
                mod.cur, mod.obj = dict(mod.saved), {}
                key = key
                call(run, "lz.state", m)
    ck.explore(entry, Opts(faults=False, max_paths=50))


def retried(ck, k):
    """a load that failed is done again"""
    def entry(run):
        d = directory(run, "ckdir")
        v, w, dev = run.sym("v", {"int"}), run.sym("w", {"str"}), run.sym("device", {"str"})
        m = call(run, "lz.picky", d, v, w)
        got, err = attempt(lambda: call(run, "lz.read_p", m))
        if err is None:
            return ck.ob(R5, "first read", False, "an error in deserialize is lost: the field is %s" % show(run.freeze(got))[:100], "hyperstate/lazy.py (Lazy.__getattribute__)", ctx(run))
        if k == 2:
            attempt(lambda: call(run, "lz.read_q", m))
        if k:
            call(run, "lz.set_ctx", m, dev)
        for f, x in (("p", v), ("q", w)):
            got, err = attempt(lambda: call(run, "lz.read_" + f, m))
            inst = "case %d, field %s" % (k, f)
            if k == 0:
                ck.ob(R5, inst, err is not None, "an error in deserialize is lost: the field is %s" % (show(run.freeze(got))[:100] if got is not None else ""), "hyperstate/lazy.py (Lazy.__getattribute__)", ctx(run))
            elif err is not None:
                ck.ob(R5, inst, False, "reading again fails: " + exc_text(run, err), loc(err.loc), ctx(run))
            else:
                g = run.deref(got)
                ck.ob(R5, inst, same(run, run.getattr_(g, "v"), x) if isinstance(g, Inst) else False, "reading again gives %s" % show(run.freeze(g))[:100], "hyperstate/lazy.py (Lazy.__getattribute__)", ctx(run))
    ck.explore(entry, Opts(faults=False, max_paths=50))


def position(ck, i, b):
    inst = "%s in a %s state" % (POS[i][0], {"Plain": "plain", "Lazy": "Lazy"}[b])

    def entry(run):
        d = directory(run, "ckdir")
        v, p, q, dev = run.sym("v", {"int"}), run.sym("p", {"int"}), run.sym("q", {"int"}), run.sym("device", {"str"})
        got, err = attempt(lambda: call(run, "lz.run_%s%d" % (b, i), d, v, p, q, dev))
        if err is not None:
            return ck.ob(R6, inst, False, "resuming fails: " + exc_text(run, err), loc(err.loc), ctx(run))
        for g, w, what in zip(items(got), (v, p, q, TRUE, dev, C(1), q, p, C(77)), ("value", "first field", "last field", "config", "context", "step", "last field, second resume", "first field, second resume", "modified value")):
            ck.ob(R6, inst + ", " + what, same(run, g, w), "the %s is %s, expected %s" % (what, show(run.freeze(g))[:100], show(w)), "hyperstate/hyperstate.py (_typed_load)", ctx(run))
    ck.explore(entry, Opts(faults=False, max_paths=50))


def mixed(ck):
    def entry(run):
        v = run.sym("v", {"int"})
        got, err = attempt(lambda: call(run, "lz.ext_checks", v))
        if err is not None:
            return ck.ob(R6, "blob()", False, "fails: " + exc_text(run, err), loc(err.loc), ctx(run))
        for g, w, what in zip(items(got), (v, v, TRUE, TRUE, v), ("attribute", "method", "instance of the class", "instance of Serializable", "serialized form")):
            ck.ob(R6, "blob(), " + what, same(run, g, w), "the %s is %s" % (what, show(run.freeze(g))[:100]), "hyperstate/lazy.py (blob)", ctx(run))
    ck.explore(entry, Opts(faults=False, max_paths=50))


def rewritten(ck, lazy, text):
    """a file that is written again: what is read is what the file contains now"""
    inst = "%s state, file rewritten%s" % ("Lazy" if lazy else "plain", ", path given as text" if text else "")

    def entry(run):
        d = directory(run, "ckdir")
        v, w = run.sym("v", {"int"}), run.sym("w", {"int"})
        got, err = attempt(lambda: call(run, "lz.rewritten", under(d, "state.ron") if text else T("P", under(d, "state.ron")), v, w, C(lazy)))
        if err is not None:
            return ck.ob(R1, inst, False, "fails: " + exc_text(run, err), loc(err.loc), ctx(run))
        for g, x, what in zip(items(got), (v, w, w, C(5), FALSE), ("first read", "read after the file was rewritten", "second object", "first object", "object shared")):
            ck.ob(R1, "%s, %s" % (inst, what), same(run, g, x), "the %s is %s, expected %s" % (what, show(run.freeze(g))[:100], show(x)), "hyperstate/lazy.py (load_blob)", ctx(run))
    ck.explore(entry, Opts(faults=False, max_paths=50))


def standalone(ck, withctx, fields):
    """a Lazy state read with load() instead of a manager"""
    inst = "load() of a Lazy state, fields %s%s" % (", ".join(fields), ", context" if withctx else "")

    def entry(run):
        d = directory(run, "ckdir")
        v = {f: run.sym("v" + f, {"int"}) for f in "abc"}
        m = call(run, "lz.manager", d, C(1), v["a"], v["b"], v["c"], run.sym("note", {"str"}), run.sym("lr", {"float"}))
        call(run, "lz.step", m)
        n = len(run.events)
        s, err = attempt(lambda: call(run, "lz.loaded", d))
        if err is not None:
            return ck.ob(R6, inst, False, "loading fails: " + exc_text(run, err), loc(err.loc), ctx(run))
        ck.ob(R4, inst + ", load", not blobs(run, n), "load() reads %s" % blobs(run, n), "hyperstate/lazy.py", ctx(run))
        x, y = run.sym("x", {"str"}), run.sym("y", {"str"})
        if withctx:
            _, err = attempt(lambda: call(run, "lz.loaded_ctx", s, run.sym("dev", {"str"}), x, y))
            if err is not None:
                return ck.ob(R1, inst, False, "set_deserialize_ctx fails: " + exc_text(run, err), loc(err.loc), ctx(run))
        seen = {}
        for f in fields:
            n = len(run.events)
            got, err = attempt(lambda: call(run, "lz.loaded_read", s, C(f)))
            if err is not None:
                return ck.ob(R1, inst, False, "reading fails: " + exc_text(run, err), loc(err.loc), ctx(run))
            want = [g for g in ([f, "a"] if f == "b" else [f]) if g not in seen]
            fs = blobs(run, n)
            ck.ob(R2, inst, sorted(fs) == sorted("state.%s.msgpack" % g for g in want), "reading %s opens %s, expected %s" % (f, fs, want), "hyperstate/lazy.py (Lazy.__getattribute__)", ctx(run))
            for g in want:
                seen[g] = True
            p = items(call(run, "lz.parts", got))
            ck.ob(R1, inst + ", data", same(run, p[0], v[f]), "deserialized with the data %s" % show(run.freeze(p[0]))[:100], "hyperstate/lazy.py", ctx(run))
            ck.ob(R1, inst + ", state", run.deref(p[2]) is run.deref(s), "deserialized with the state %s" % show(run.freeze(p[2]))[:100], "hyperstate/lazy.py", ctx(run))
            c = run.deref(p[3])
            e = {k: z[1] for k, z in c.entries.items()} if isinstance(c, Dict) else None
            want = {C("device"): y, C("second"): x} if withctx else {}
            ck.ob(R1, inst + ", context", e is not None and set(e) == set(want) and all(same(run, e[k], want[k]) for k in want), "deserialized with the context %s" % show(run.freeze(c))[:100], "hyperstate/lazy.py", ctx(run))
    ck.explore(entry, Opts(faults=False, max_paths=50))


def collide(ck):
    def entry(run):
        d = directory(run, "ckdir")
        v, w = run.sym("v", {"int"}), run.sym("w", {"int"})
        got, err = attempt(lambda: call(run, "lz.collide", d, v, w))
        if err is not None:
            return ck.ob(R6, "fields a[0] and a_0", False, "resuming fails: " + exc_text(run, err), loc(err.loc), ctx(run))
        r = [same(run, x, y) for x, y in zip(items(got), (v, w))]
        ck.ob(R6, "fields a[0] and a_0", False if False in r else None if None in r else True, "the objects are stored in the same file: %s" % show(run.freeze(got)), "hyperstate/lazy.py (LazySerializer)", ctx(run))
    ck.explore(entry, Opts(faults=False, max_paths=50))
