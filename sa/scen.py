"""Helpers to write scenarios: symbolic inputs of a client, calls, and comparison of abstract values."""
import os
from .terms import *
from .engine import Raise, Stop, Opts
from .fs import Crash

CLIENTS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "clients")


def client(ck, name):
    with open(os.path.join(CLIENTS, name + ".py")) as f:
        ck.repo.add_source(name, f.read())


def client_src(ck, name, src):
    ck.repo.add_source(name, src)


def fn(run, name):
    return run.lookup(name)


def call(run, name, *args, **kw):
    return run.call(run.lookup(name), list(args), kw)


def nat(run, name, hi=10 ** 12):
    n = run.sym(name, {"int"})
    run.lo[n] = (0, False)
    run.hi[n] = (hi, True)
    return n


def sym(run, name, kinds):
    return run.sym(name, set(kinds.split()) if isinstance(kinds, str) else kinds)


def less(run, a, b):
    """assume a < b on this trace"""
    run.assume(T("lt", a, b), True)


def distinct(run, a, b):
    """assume that two unknown values differ"""
    if show(b) < show(a):
        a, b = b, a
    run.assume(T("eq", a, b), False)


def directory(run, name, closed=True):
    """a path known to be a directory; closed: with no entries but those made on the trace"""
    d = run.sym(name, {"str"})
    run.vdirs[d] = closed
    return T("P", d)


def items(v):
    """components of an abstract tuple value"""
    if isinstance(v, Seq):
        return v.items
    if isinstance(v, T) and v.op in ("tuple", "list"):
        return list(v.a)
    return None


def fz(run, v):
    return run.freeze(v)


def same(run, a, b):
    """True if the values are known to be equal, False if known to differ (or of different shape), None otherwise."""
    a, b = run.bind_lit(run.deref(a)), run.bind_lit(run.deref(b))
    if a is b:
        return True
    fa, fb = run.freeze(a), run.freeze(b)
    if fa is fb:
        return True
    if is_c(fa) and is_c(fb):
        return type(fa.a[0]) is type(fb.a[0]) and (fa.a[0] == fb.a[0] or fa.a[0] != fa.a[0] and fb.a[0] != fb.a[0])
    ka, kb = run.kinds(a), run.kinds(b)
    if ka is not None and kb is not None and not (ka & kb):
        return False
    ia, ib = items(a), items(b)
    if ia is not None and ib is not None and not any(isinstance(x, Star) for x in ia + ib):
        if len(ia) != len(ib):
            return False
        rs = [same(run, x, y) for x, y in zip(ia, ib)]
        return False if False in rs else None if None in rs else True
    if isinstance(a, Inst) and isinstance(b, Inst):
        if a.cls is not b.cls:
            return False
        r = True
        ka, kb = dict(a.d.entries), dict(b.d.entries)
        for k in set(ka) | set(kb):
            if k not in ka or k not in kb:
                if a.base is None and b.base is None:
                    return False
                r = None
                continue
            x = same(run, ka[k][1], kb[k][1])
            if x is False:
                return False
            if x is None:
                r = None
        return r
    if isinstance(a, Dict) and isinstance(b, Dict) and a.base is None and b.base is None and not a.stars and not b.stars:
        ea = {k: v for k, v in a.entries.items() if v[1] is not Dict.TOMB}
        eb = {k: v for k, v in b.entries.items() if v[1] is not Dict.TOMB}
        if len(ea) != len(eb):
            return False
        rs, todo = [], list(eb)
        for k in ea:
            m = k if k in todo else next((q for q in todo if same(run, k, q)), None)
            if m is None:
                return False if all(same(run, k, q) is False for q in todo) else None
            todo.remove(m)
            rs.append(same(run, ea[k][1], eb[m][1]))
        return False if False in rs else None if None in rs else True
    r = run.probe(lambda: run.eq(a, b))
    if r is None and independent(fa) and independent(fb):
        return False        # inputs of the client are arbitrary and independent: some values differ
    return r


def independent(t):
    return isinstance(t, T) and t.op in ("sym", "c")


def crashed(run, f):
    """Run f with crash points armed.  Returns (value, None) or (None, Crash)."""
    run.crash_armed = True
    try:
        return f(), None
    except Crash as c:
        return None, c
    finally:
        run.crash_armed = False


def faulted(run, f):
    """Run f with every file-system effect able to fail with an I/O error.  Returns (value, place, Raise)."""
    run.fault_armed, run.fault = True, None
    try:
        return f(), run.fault, None
    except Raise as r:
        return None, run.fault, r
    finally:
        run.fault_armed = False


def attempt(f):
    """(value, None) or (None, Raise)"""
    try:
        return f(), None
    except Raise as r:
        return None, r


def exc_text(run, r):
    v = r.value
    s = repr(v)
    at = loc(r.loc) or "?"
    return "%s raised at %s" % (s[:160], at)


def opaque_facts(run):
    """Does the trace depend on the result of a call the analysis does not interpret?"""
    for a, v in run.fact_log:
        for x in subterms(a):
            if x.op in ("call", "mcall") and not run.tags.get(("pure", x)):
                return True
    return False


def ctx(run):
    return ["%s%s" % ("" if v else "not ", show(a)[:160]) for a, v in run.fact_log][-14:]


def loc(l):
    import re
    return "" if not l else "%s:%s (%s)" % (re.sub(r".*/(hyperstate/|clients/)", r"\1", str(l[0])), l[1], l[2])


def document(run, value, name="doc"):
    """text that parses to the abstract value (Nt: a named struct, Dict: a map, ...)"""
    t = T("ron", T("text", name, run.fresh(name)))
    run.kindmap[t] = frozenset(["str"])
    run.tags[("ron", t)] = value
    return t


def doc_file(run, value, path):
    """let the path name a file with such a text"""
    run.vfs[path] = document(run, value)
    return T("P", path)


def mkdict(pairs):
    """abstract dict from pairs; plain strings are constant keys"""
    d = Dict()
    for k, v in pairs:
        k = C(k) if isinstance(k, str) else k
        d.entries[k] = (k, v)
    return d


def struct(name, pairs):
    return Nt(C(name), mkdict(pairs))


def unlike(run, t, names):
    """assume that the unknown value differs from these constants"""
    for n in names:
        run.facts[T("eq", t, C(n))] = False


def mentions(run, r, t):
    """does the exception carry the term?"""
    try:
        return any(x is t for x in subterms(run.freeze(r.value)))
    except Exception:
        return None


def under(d, *names):
    """key of a path below a directory (a path value) in the modelled file system"""
    k = d.a[0] if d.op == "P" else d
    return T("join", *(k.a if k.op == "join" else (k,)), *[C(n) if isinstance(n, str) else n for n in names])
