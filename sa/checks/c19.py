"""Arrays in blobs.

An object that serializes to an array or tensor with unknown content, dtype and shape at some position of nested lists and dictionaries, next to unknown other data, is checkpointed and resumed.  The packing library is an axiom
(it applies `default` to what it cannot pack and `object_hook` to every dictionary), as are the numpy identities (an array is determined by its dtype, shape and bytes in C order; a copy is writable, an array over a bytes object is not).
The decoded term must be a writable copy of the same array, of the same kind, and everything else the identical term."""
from ..scen import *
from .. import tygen

R1, R2, R3, R4, R5 = "C19.same-content", "C19.same-kind", "C19.writable", "C19.other-data", "C19.rejected"
SRC = tygen.HEAD + '''
from hyperstate import StateManager, Lazy, Serializable


@dataclass
class Cfg:
    x: int = 1


class W(Serializable):
    def __init__(self, v):
        self.v = v

    def serialize(self):
        return self.v

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        return W(state_dict)


@dataclass
class St(Lazy):
    step: int
    w: W
    other: W


def roundtrip(ckdir, v, w):
    def init(config, ctx):
        return St(1, W(v), W(w))
    m = StateManager(Cfg, St, init, checkpoint_dir=ckdir)
    m.step()
    m = StateManager(Cfg, St, no_init, checkpoint_dir=ckdir)
    return (m.state.w.v, m.state.other.v)


def twice(ckdir, v, w):
    def init(config, ctx):
        return St(1, W(v), W(w))
    m = StateManager(Cfg, St, init, checkpoint_dir=ckdir)
    m.step()
    m = StateManager(Cfg, St, no_init, checkpoint_dir=ckdir)
    m.state.step = 2
    m.step()
    m = StateManager(Cfg, St, no_init, checkpoint_dir=ckdir)
    return (m.state.w.v, m.state.other.v)


def no_init(config, ctx):
    return None


class Thing:
    def __init__(self, v):
        self.v = v


def thing(v):
    return Thing(v)


def aset(v):
    return {v}
'''


def positions():
    yield "top", lambda r, a: a, lambda run, v: v
    yield "list", lambda r, a: Seq("list", [r.sym("i", {"int"}), a]), lambda run, v: at(run, v, 1)
    yield "dict", lambda r, a: mkdict([("n", r.sym("i", {"int"})), ("a", a)]), lambda run, v: at(run, v, C("a"))
    yield "dict with int keys", lambda r, a: idict(r, a), lambda run, v: at(run, v, C(7))
    yield "dict in dict", lambda r, a: mkdict([("d", mkdict([("a", a)])), ("n", r.sym("i", {"str"}))]), lambda run, v: at(run, at(run, v, C("d")), C("a"))
    yield "list in dict", lambda r, a: mkdict([("d", Seq("list", [a, a]))]), lambda run, v: at(run, at(run, v, C("d")), 0)
    yield "dict in list", lambda r, a: Seq("list", [mkdict([("a", a), ("b", C(b"x"))])]), lambda run, v: at(run, at(run, v, 0), C("a"))
    yield "tuple", lambda r, a: Seq("tuple", [a, r.sym("f", {"float"})]), lambda run, v: at(run, v, 0)


def idict(run, a):
    d = Dict()
    d.entries[C(7)] = (C(7), a)
    return d


def at(run, v, k):
    v = run.deref(v)
    if isinstance(v, Seq) and isinstance(k, int) and k < len(v.items):
        return v.items[k]
    if isinstance(v, Dict) and k in v.entries:
        return v.entries[k][1]
    return None


def run(ck):
    client_src(ck, "ar", SRC)
    jobs = []
    for name, put, get in positions():
        for kind in ("ndarray", "tensor"):
            for how in ("roundtrip", "twice"):
                jobs.append(lambda ck, a=(name, put, get, kind, how): one(ck, *a))
    jobs += [lambda ck, n=n, m=m, h=h: other(ck, n, m, h) for n, m in others() for h in ("roundtrip", "twice")]
    jobs += [lambda ck, p=p, w=w: rejected(ck, p[0], p[1], w) for p in positions() for w in ("thing", "aset")]
    ck.map(jobs)
    ck.need(10, R5)
    ck.need(30, R1)
    ck.need(30, R2)
    ck.need(30, R3)
    ck.need(30, R4)


SAME = {"detach", "contiguous", "cpu", "resolve_conj", "resolve_neg"}
COPY = {"numpy.copy", "numpy.array"}
CASTS = {"float", "double", "half", "bfloat16", "int", "long", "short", "bool", "byteswap", "ravel", "flatten", "transpose",
         "squeeze", "unsqueeze"}
KEEP = {"numpy.asarray", "numpy.ascontiguousarray", "numpy.require"}


class Unknown(Exception):
    pass


def kw_of(t):
    """(positional, keyword) arguments of a call term"""
    pos = [x for x in t.a[1:] if not (isinstance(x, T) and x.op == "kw")]
    return pos, {x.a[0]: x.a[1] for x in t.a[1:] if isinstance(x, T) and x.op == "kw"}


def arg(t, *names):
    """the arguments of a call by name, the positional ones in the order of the names"""
    pos, kw = kw_of(t)
    if len(pos) > len(names) or set(kw) - set(names):
        raise Unknown("arguments of " + show(t)[:80])
    d = dict(zip(names, pos))
    d.update(kw)
    return [d.get(n) for n in names]


def arr(x):
    """(what array's content, dtype and shape it has, writable, kind) for a term; raises Unknown when the identities do not say"""
    if x.op == "sym":
        return x, True, None
    if x.op == "arr":
        if x.a[1] == "reshape" and x.a[2] and not x.a[3]:
            return reshaped(x, x.a[0], x.a[2][0] if len(x.a[2]) == 1 else T("tuple", *x.a[2]))
        src, w, k = arr(x.a[0])
        if x.a[1] == "numpy" and not x.a[2] and not x.a[3]:
            return src, w, "ndarray"
        if x.a[1] in SAME and not x.a[2] and not x.a[3]:
            return src, w, k
        if x.a[1] in CASTS:
            raise Differs("converted with " + x.a[1])
        if x.a[1] == "astype" and len(x.a[2]) == 1:
            if not same_dtype(x.a[2][0], src):
                raise Differs("dtype " + show(x.a[2][0])[:80])
            return src, True, k
        raise Unknown("method " + x.a[1])
    if x.op != "call":
        raise Unknown(show(x)[:80])
    f = x.a[0]
    if f in COPY:
        o, dt = (arg(x, "object", "dtype") if f == "numpy.array" else arg(x, "a", "order")[:1] + [None])
        src, w, k = arr(o)
        if dt is not None and not same_dtype(dt, src):
            raise Differs("dtype " + show(dt)[:80])
        return src, True, "ndarray"
    if f in KEEP:
        o, dt, req = arg(x, "a", "dtype", "requirements")
        src, w, k = arr(o)
        if dt is not None and not same_dtype(dt, src):
            raise Differs("dtype " + show(dt)[:80])
        if req is not None:
            raise Unknown("requirements")
        return src, w, "ndarray"
    if f == "torch.clone":
        return arr(arg(x, "input")[0])[0], True, "tensor"
    if f in ("torch.from_numpy", "torch.as_tensor"):
        src, w, k = arr(arg(x, "data")[0])
        return src, w, "tensor"
    if f == "torch.tensor":
        return arr(arg(x, "data")[0])[0], True, "tensor"
    if f == "numpy.ndarray":
        shape, dt, buf = arg(x, "shape", "dtype", "buffer")
        return (over(x, buf, dt, shape), mutable(buf), "ndarray")
    if f == "numpy.frombuffer":
        raise Differs("no shape: the array is flat")
    if f == "numpy.reshape":
        a, shape = arg(x, "a", "shape")
        return reshaped(x, a, shape)
    raise Unknown(f)


def reshaped(x, a, shape):
    if a.op == "call" and a.a[0] == "numpy.frombuffer":
        buf, dt = arg(a, "buffer", "dtype")
        return over(x, buf, dt, shape), mutable(buf), "ndarray"
    src, w, k = arr(a)
    if not same_shape(shape, src):
        raise Differs("shape " + show(shape)[:80])
    return src, w, k


def mutable(buf):
    return buf.op == "call" and buf.a[0] == "builtins.bytearray"


class Differs(Exception):
    pass


def over(x, buf, dt, shape):
    """the array a buffer with a dtype and shape is"""
    b = buf
    if b.op == "call" and b.a[0] == "builtins.bytearray":
        b = b.a[1]
    if not (b.op == "call" and b.a[0] == "numpy.ndarray.tobytes"):
        raise Unknown("buffer " + show(b)[:80])
    src = arr(b.a[1])[0]
    order = kw_of(b)[0][1:] + list(kw_of(b)[1].values())
    if order and order != [C("C")]:
        raise Differs("bytes in an order other than C")
    if dt is None or not same_dtype(dt, src):
        raise Differs("dtype " + ("default" if dt is None else show(dt)[:80]))
    if shape is None or not same_shape(shape, src):
        raise Differs("shape " + ("default" if shape is None else show(shape)[:80]))
    return src


def same_dtype(t, src):
    if t.op == "attr" and t.a[1] == "dtype":
        return arr(t.a[0])[0] is src
    if t.op == "call" and t.a[0] == "numpy.dtype":
        return same_dtype(t.a[1], src)
    if t.op == "attr" and t.a[1] == "str":
        return same_dtype(t.a[0], src)
    if t.op in ("attr", "c", "ext"):
        return False
    raise Unknown("dtype " + show(t)[:80])


def same_shape(t, src):
    while t.op == "call" and t.a[0] in ("builtins.tuple", "builtins.list") and len(t.a) == 2:
        t = t.a[1]
    if t.op in ("tuple", "list") and len(t.a) == 1 and t.a[0].op == "star":
        e = t.a[0].a[0]
        if e.op == "int" or e.op == "call" and e.a[0] == "builtins.int":
            e = e.a[-1]
        if e.op in ("item", "elem") and e.a[0].op == "attr":
            t = e.a[0]
    if t.op == "attr" and t.a[1] == "shape":
        return arr(t.a[0])[0] is src
    if t.op in ("attr", "c", "tuple", "list", "len"):
        return False
    if t.op in ("slice", "slice_seq") and t.a[0].op == "attr":
        return False
    raise Unknown("shape " + show(t)[:80])


def one(ck, name, put, get, kind, how):
    inst = "%s, %s, %s" % (kind, name, how)

    def entry(run):
        a = run.sym("A", {kind})
        if kind == "tensor":
            run.assume(T("import fails", "torch"), False)
        d = directory(run, "ckdir")
        got, err = attempt(lambda: call(run, "ar." + how, d, put(run, a), mkdict([("plain", run.sym("o", {"int"}))])))
        if err is not None:
            return ck.ob(R1, inst, False, "storing or loading fails: " + exc_text(run, err), loc(err.loc), ctx(run))
        v = get(run, items(got)[0])
        where = loc(run.cur)
        if v is None:
            return ck.ob(R1, inst, False, "what is stored as an array loads as " + show(run.freeze(items(got)[0]))[:200], where, ctx(run))
        t = run.freeze(v)
        try:
            src, w, k = arr(t)
        except Differs as e:
            return ck.ob(R1, inst, False, "the loaded array has other content, dtype or shape (%s): %s" % (e, show(t)[:300]), where, ctx(run))
        except Unknown as e:
            if t.op in ("c", "dict", "list", "tuple") or run.kinds(t) is not None and not run.kinds(t) & {"ndarray", "tensor", "obj"}:
                return ck.ob(R1, inst, False, "an array loads as " + show(t)[:200], where, ctx(run))
            return ck.ob(R1, inst, None, "not decided (%s): %s" % (e, show(t)[:300]), where, ctx(run))
        if src is a and k is None:
            return ck.ob(R1, inst, None, "the array itself, not a stored copy", where, ctx(run))
        ck.ob(R1, inst, src is a, "the loaded array is not the stored one: " + show(t)[:300], where, ctx(run))
        ck.ob(R2, inst, k == kind, "a stored %s loads as %s" % (kind, k), where, ctx(run))
        ck.ob(R3, inst, w, "the loaded array is read-only: " + show(t)[:200], where, ctx(run))
    ck.explore(entry, Opts(faults=False, max_paths=50))


MARKS = ["__tensor__", "__ndarray__", "dtype", "shape", "data", "nd", "type", "kind"]


def others():
    for k in ("int", "float", "str", "bytes", "bool"):
        yield "a bare " + k, lambda r, k=k: (lambda x: (x, x))(r.sym("x", {k}))
    yield "None", lambda r: (C(None), C(None))
    yield "an empty dictionary", lambda r: (mkdict([]), mkdict([]))
    yield "an empty list", lambda r: (Seq("list", []), Seq("list", []))
    yield "an empty text", lambda r: (C(""), C(""))
    yield "empty bytes", lambda r: (C(b""), C(b""))
    yield "a dictionary", lambda r: both(lambda x: mkdict([("a", x), ("b", C(None)), ("c", C(b""))]), r)
    yield "a list", lambda r: both(lambda x: Seq("list", [x, C("a"), C(None), Seq("list", [x])]), r)
    yield "a tuple", lambda r: (lambda x: (Seq("tuple", [x, C(1)]), Seq("list", [x, C(1)])))(r.sym("x", {"int"}))
    yield "a dictionary with int keys", lambda r: both(lambda x: idict(r, x), r)
    yield "a nested dictionary", lambda r: both(lambda x: mkdict([("a", mkdict([("b", mkdict([("c", x)]))])), ("d", Seq("list", [mkdict([("e", x)])]))]), r)
    for k in MARKS:
        yield "a dictionary with the key %r" % k, lambda r, k=k: both(lambda x: mkdict([(k, x), ("z", C(1))]), r)
        yield "a dictionary with the value %r" % k, lambda r, k=k: both(lambda x: mkdict([("z", C(k)), ("y", x)]), r)
    yield "a dictionary with the keys %s" % MARKS, lambda r: both(lambda x: mkdict([(k, x) for k in MARKS]), r)
    yield "a dictionary like an encoded array with text keys", lambda r: both(lambda x: mkdict(
        [("__tensor__", C("numpy")), ("dtype", C("<f8")), ("shape", Seq("list", [C(1)])), ("data", C(b"12345678")), ("v", x)]), r)
    full = [(b"__tensor__", C("numpy")), (b"dtype", C("<f8")), (b"shape", Seq("list", [C(1)])), (b"data", C(b"12345678"))]
    for n in range(15):
        part = [e for i, e in enumerate(full) if n >> i & 1]
        yield "a dictionary with only the keys %s of an encoded array" % [e[0] for e in part], lambda r, part=part: both(lambda x: bdict(part, x), r)
    yield "the text __tensor__", lambda r: (C("__tensor__"), C("__tensor__"))
    yield "the bytes __tensor__", lambda r: (C(b"__tensor__"), C(b"__tensor__"))
    yield "a list with the bytes __tensor__", lambda r: both(lambda x: Seq("list", [C(b"__tensor__"), x]), r)


def bdict(part, x):
    d = mkdict([("v", x)])
    for k, v in part:
        d.entries[C(k)] = (C(k), v)
    return d


def rejected(ck, name, put, what):
    """what the format has no representation for is not stored as something else"""
    inst = "%s, %s" % ({"thing": "an object", "aset": "a set"}[what], name)

    def entry(run):
        a = call(run, "ar." + what, run.sym("v", {"int"}))
        d = directory(run, "ckdir")
        got, err = attempt(lambda: call(run, "ar.roundtrip", d, put(run, a), C(1)))
        ck.ob(R5, inst, err is not None, "it is stored, and loads as %s" % (show(run.freeze(items(got)[0]))[:150] if err is None else ""), "hyperstate/msgpack_torch.py (encode)", ctx(run))
    ck.explore(entry, Opts(faults=False, max_paths=50))


def both(f, r):
    x = r.sym("x", {"int"})
    return f(x), f(x)


def other(ck, name, make, how):
    inst = "%s, %s" % (name, how)

    def entry(run):
        v, want = make(run)
        d = directory(run, "ckdir")
        got, err = attempt(lambda: call(run, "ar." + how, d, v, run.sym("A", {"ndarray"})))
        if err is not None:
            return ck.ob(R4, inst, False, "storing or loading fails: " + exc_text(run, err), loc(err.loc), ctx(run))
        g, w = run.freeze(items(got)[0]), run.freeze(want)
        ck.ob(R4, inst, g is w, "%s loads as %s" % (show(w)[:120], show(g)[:120]), loc(run.cur), ctx(run))
    ck.explore(entry, Opts(faults=False, max_paths=50))
