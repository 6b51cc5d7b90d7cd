"""Abstract values: interned immutable terms, and mutable abstract heap objects."""


class T:
    """An interned term.  `op` names the constructor, `a` its arguments (terms or plain data)."""
    __slots__ = ("op", "a", "h")
    tab = {}

    def __new__(cls, op, *a):
        key = (op,) + a
        k2 = (key, type(a[0])) if op == "c" else key
        t = cls.tab.get(k2)
        if t is None:
            t = object.__new__(cls)
            t.op, t.a = op, a
            t.h = hash(k2)
            cls.tab[k2] = t
        return t

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


def C(v):
    return T("c", v)


NONE, TRUE, FALSE = C(None), C(True), C(False)


def B(b):
    return TRUE if b else FALSE


def is_c(v):
    return isinstance(v, T) and v.op == "c"


def cval(v):
    return v.a[0]


def is_str_c(v):
    return is_c(v) and isinstance(v.a[0], str)


def ext(name):
    return T("ext", name)


def is_ext(v, name=None):
    return isinstance(v, T) and v.op == "ext" and (name is None or v.a[0] == name)


def show(v, depth=0):
    if depth > 6:
        return "..."
    if isinstance(v, tuple) and not isinstance(v, T):
        return "(" + ", ".join(show(x, depth + 1) for x in v) + ")"
    if not isinstance(v, T):
        return repr(v) if isinstance(v, (str, int, float, bytes, type(None), bool)) else str(v)
    s = lambda x: show(x, depth + 1)
    o, a = v.op, v.a
    if o == "c":
        return repr(a[0])
    if o == "sym":
        return "<%s>" % a[0]
    if o == "attr":
        return "%s.%s" % (s(a[0]), a[1])
    if o == "item":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "ext":
        return a[0]
    if o == "cat":
        return "+".join(s(x) for x in a)
    if o == "join":
        return "/".join(s(x) for x in a)
    if o == "P":
        return "Path(%s)" % s(a[0])
    if o == "idx":
        return "i#%s" % (a[0],)
    return "%s(%s)" % (o, ", ".join(s(x) for x in a))


def subterms(v, seen=None):
    """All terms reachable in a frozen term (pre-order, without duplicates)."""
    if seen is None:
        seen = set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)


def mentions(v, t):
    return any(x is t for x in subterms(v))


# ---------------------------------------------------------------- heap objects

class Heap:
    pass


class Star:
    """'zero or more elements of this form' inside an abstract sequence."""
    def __init__(self, value, why=None):
        self.value, self.why = value, why

    def __repr__(self):
        return "*%r" % (self.value,)


class Seq(Heap):
    def __init__(self, kind, items, base=None):
        self.kind, self.items = kind, list(items)   # kind: list tuple set gen
        self.base = base                             # term this object refines, if any

    def __repr__(self):
        return "%s%r" % (self.kind, self.items)

    def has_star(self):
        return any(isinstance(i, Star) for i in self.items)


class Dict(Heap):
    TOMB = object()

    def __init__(self, base=None):
        self.entries = {}     # frozen key -> (key, value | TOMB)
        self.stars = []       # [(key, value)] generic contributions of loops
        self.base = base      # term for the unknown rest, or None
        self.cleared = False
        self.writes = []      # log of (key, value, generic?)

    def __repr__(self):
        r = ", ".join("%r: %r" % (k, "DEL" if v is Dict.TOMB else v) for k, v in self.entries.values())
        return "{%s%s%s}" % (r, "; *%r" % self.stars if self.stars else "",
                             "; **%r" % self.base if self.base is not None else "")


class Inst(Heap):
    def __init__(self, cls, base=None):
        self.cls = cls        # ClassInfo-backed ClassObj
        self.d = Dict(None)   # attributes
        self.base = base      # term this object refines (attributes not set are read from it)

    def __repr__(self):
        return "<%s %r>" % (self.cls.name if self.cls else "?", self.d)


class Nt(Heap):
    """instance of a dynamically created namedtuple"""
    def __init__(self, name, d):
        self.name, self.d = name, d

    def __repr__(self):
        return "Nt %s%r" % (show(self.name), self.d)


class Func(Heap):
    def __init__(self, module, node, env, name, cls=None, defaults=None, kwdefaults=None):
        self.module, self.node, self.env, self.name, self.cls = module, node, env, name, cls
        self.defaults, self.kwdefaults = defaults or [], kwdefaults or {}

    @property
    def qual(self):
        if self.cls is not None:
            return "%s.%s.%s" % (self.module.name, self.cls.name, self.name)
        return "%s.%s" % (self.module.name, self.name)

    def __repr__(self):
        return "<fn %s>" % self.qual


class Bound(Heap):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return "<bound %r of %r>" % (self.func, self.self_)


class ClassObj(Heap):
    """A class of the analysed package (or of a harness).  One per ClassInfo and run."""
    def __init__(self, info, env=None):
        self.info, self.env = info, env
        self.name = info.name
        self.nth = None
        self.bases = None
        self.attrs = {}     # evaluated class attributes
        self.dc_fields = None

    @property
    def qual(self):
        return self.info.qual if self.nth is None else "%s#%d" % (self.info.qual, self.nth)

    def __repr__(self):
        return "<class %s>" % self.qual


class Super(Heap):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ModuleObj(Heap):
    def __init__(self, module):
        self.module = module

    def __repr__(self):
        return "<module %s>" % self.module.name


class Partial(Heap):
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class Native(Heap):
    """A modelled function with captured state."""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<native %s>" % self.name


class Exc(Heap):
    """An exception instance of an external class."""
    def __init__(self, cls, args, term=None):
        self.cls, self.args, self.term = cls, args, term    # cls: name of builtin / dotted

    def __repr__(self):
        return "%s(%s)" % (self.cls, ", ".join(map(repr, self.args)))
