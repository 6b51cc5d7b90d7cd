"""Truth, equality, order, membership, class tests, and containers."""
import ast
import operator
import re
from .terms import *
from .strs import StrMixin
from .alg import AlgMixin, arith
from .engine import Raise, Stop, kind_of_const, KIND_OF_EXT, BASE_KINDS, Lazy_

NUM = {"int", "float", "bool"}
PYOPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
         "%": operator.mod, "**": operator.pow, "|": operator.or_, "&": operator.and_, "^": operator.xor,
         "<<": operator.lshift, ">>": operator.rshift}


def literal(t):
    return isinstance(t, T) and (t.op in ("c", "ext", "enum", "class") or (t.op == "ty" and closed(t))
                                 or (t.op in ("tuple",) and closed(t)))


def closed(t):
    return all(x.op in ("c", "ext", "enum", "class", "ty", "tuple", "kv") for x in subterms(t))


class RelMixin(StrMixin, AlgMixin):
    # ---------------------------------------------------------------- truth
    def truth(self, v):
        v = self.deref(v)
        if isinstance(v, T):
            b = self.bind.get(v)
            if b is not None:
                v = b
            if v.op == "c":
                return bool(v.a[0])
            if v.op in ("ext", "class", "fn", "ty", "type", "P", "enum", "bound", "nt", "ron"):
                return True
            ks = self.kinds(v)
            if ks is not None:
                if ks == {"none"} or ks == {"nt0"}:
                    return False
                if "none" in ks and len(ks) > 1:
                    # a false value may be None: separate it, so that later None tests are decided
                    if self.facts.get(T("truth", v)) is None and self.split(v, ["none"]):
                        return False
                    ks = self.kinds(v)
                if all(k in ("class", "func", "path", "nt", "obj", "dc") or
                       (k.startswith("inst:") and not self.has_len(k)) for k in ks):
                    if "obj" not in ks:
                        return True
            return self.decide(T("truth", v))
        if isinstance(v, Seq):
            if any(not isinstance(i, Star) for i in v.items):
                return True
            if not v.items:
                return False
            return self.decide(T("truth", self.freeze(v)))
        if isinstance(v, Dict):
            if any(x is not Dict.TOMB for _, x in v.entries.values()):
                return True
            if v.base is None and not v.stars:
                return False
            return self.decide(T("truth", self.freeze(v)))
        if isinstance(v, Inst) and v.cls is not None:
            for n in ("__bool__", "__len__"):
                owner, m = self.find_member(v.cls, n)
                if m is not None:
                    return self.truth(self.call(self.func_of(owner, m), [v], {}))
            return True
        if isinstance(v, Nt):
            return bool(v.d.entries)
        if v.__class__.__name__ == "View":
            return self.truth(v.d)
        return True

    def has_len(self, k):
        co = self.class_by_qual(k[5:])
        return co is None or any(self.find_member(co, n)[1] is not None for n in ("__bool__", "__len__"))

    # ---------------------------------------------------------------- identity / equality
    def is_(self, a, b):
        a, b = self.bind_lit(a), self.bind_lit(b)
        if a is b:
            return True
        if isinstance(a, T) and a.op == "c" and a.a[0] is None:
            a, b = b, a
        if isinstance(b, T) and b.op == "c" and b.a[0] is None:
            if not isinstance(a, T):
                return False
            if a.op in ("c", "ext", "ty", "class", "fn"):
                return False
            ks = self.kinds(a)
            if ks is None:
                v = self.decide(T("isnone", a))
                if v:
                    self.refine(a, ["none"])
                else:
                    self.kindmap.setdefault(a, (BASE_KINDS - {"none"}) | {"anyinst"}) if False else None
                return v
            return self.split(a, ["none"])
        if isinstance(a, Heap) or isinstance(b, Heap):
            if isinstance(a, Heap) and isinstance(b, Heap):
                if isinstance(a, Inst) and isinstance(b, Inst) and self.freeze(a).op == "enum" and self.freeze(a) is self.freeze(b):
                    return True
                return False
            t, h = (a, b) if isinstance(a, T) else (b, a)
            if t.op in ("c", "ext", "class", "ty"):
                return False
            if isinstance(h, (ClassObj,)) or (isinstance(h, Inst) and self.freeze(h).op == "enum"):
                return self.eq(t, h)
            return False
        if literal(a) and literal(b):
            return False
        if is_ext(a) or is_ext(b):
            e, o = (a, b) if is_ext(a) else (b, a)
            if e.a[0].endswith("MISSING"):
                return False
        if is_c(a) or is_c(b):
            c = a if is_c(a) else b
            if isinstance(c.a[0], bool):
                t = b if c is a else a
                ks = self.kinds(t)
                if ks is not None and not self.split(t, ["bool"]):
                    return False
                return self.eq(a, b)
        return self.decide(T("is", *sorted((a, b), key=show)))

    def bind_lit(self, v):
        v = self.deref(v)
        if isinstance(v, T) and v in self.bind:
            return self.deref(self.bind[v])
        return v

    def ne(self, a, b):
        a_ = self.deref(a)
        if isinstance(a_, Inst) and a_.cls is not None:
            owner, m = self.find_member(a_.cls, "__ne__")
            if m is not None:
                return self.truth(self.call(self.func_of(owner, m), [a_, b], {}))
        return not self.eq(a, b)

    def eq(self, a, b):
        a, b = self.bind_lit(a), self.bind_lit(b)
        if a is b:
            return True
        if isinstance(a, T) and isinstance(b, T):
            return self.eq_terms(a, b)
        # members of enums that mix in str or int
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Inst) and x.cls is not None and not (isinstance(y, Inst) and y.cls is not None) and self.is_enum_class(x.cls):
                if any(is_ext(c) and c.a[0] in ("builtins.str", "builtins.int") for c in self.mro(x.cls)):
                    return self.eq(self.getattr_(x, "value"), y)
        # custom equality
        for x, y in ((a, b), (b, a)):
            x_ = x
            if isinstance(x_, T):
                ks = self.kinds(x_)
                if ks is not None and len(ks) == 1 and next(iter(ks)).startswith("inst:"):
                    x_ = self.heapify(x_)
            if isinstance(x_, Inst) and x_.cls is not None:
                owner, m = self.find_member(x_.cls, "__eq__")
                if m is not None:
                    r = self.call(self.func_of(owner, m), [x_, y], {})
                    if is_ext(r, "builtins.NotImplemented"):
                        continue
                    return self.truth(r)
        if isinstance(a, Heap) and isinstance(b, Heap):
            return self.eq_heap(a, b)
        t, h = (a, b) if isinstance(a, T) else (b, a)
        if t.op in ("ext", "ty", "c", "class", "enum") and isinstance(h, (ClassObj, Func, Bound, Native, ModuleObj, Partial)):
            return False
        ks = self.kinds(t)
        kh = self.kinds(h)
        if isinstance(h, Seq) and h.kind == "tuple" and not h.items and ks is not None and ks & {"nt0", "nt", "tuple"}:
            if t.op in ("list", "dict"):
                return False
            # () equals the empty tuple and namedtuples without fields
            if not self.split(t, ["nt0", "tuple"]):
                return False
            if self.kinds(t) == {"nt0"}:
                return True
            if not self.split(t, ["tuple"]):
                return True
            return not self.decide(T("truth", t))
        if ks is not None and kh is not None and not self.may_equal(ks, kh):
            return False
        if isinstance(h, Seq) and not h.has_star() and t.op in ("tuple", "list") and t.op == h.kind and len(t.a) == len(h.items):
            return all(self.eq(x, y) for x, y in zip(t.a, h.items))
        if isinstance(h, Inst) and h.cls is not None and ks is not None and len(ks) == 1 and next(iter(ks)).startswith("inst:"):
            o = self.heapify(t)
            if isinstance(o, Inst):
                return self.eq_heap(o, h)
        return self.eq_atom(t, self.freeze(h))

    def may_equal(self, k1, k2):
        g = lambda ks: {"num" if k in NUM else ("tuple" if k in ("nt", "nt0") else k) for k in ks}
        a, b = g(k1), g(k2)
        if a & b:
            return True
        if any(k.startswith("inst:") or k == "obj" or k == "dc" for k in a) and any(k.startswith("inst:") or k in ("obj", "dc") for k in b):
            return True
        return False

    def eq_heap(self, a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, Seq):
            ka, kb = a.kind, b.kind
            if ka != kb:
                return False
            if a.kind == "gen":
                return False
            if not a.has_star() and not b.has_star():
                if len(a.items) != len(b.items):
                    return False
                if a.kind == "set":
                    return self.eq_atom(self.freeze(a), self.freeze(b)) if self.freeze(a) is not self.freeze(b) else True
                return all(self.eq(x, y) for x, y in zip(a.items, b.items))
            return self.eq_atom(self.freeze(a), self.freeze(b))
        if isinstance(a, Dict):
            if a.base is None and b.base is None and not a.stars and not b.stars:
                ka = {k for k, v in a.entries.items() if v[1] is not Dict.TOMB}
                kb = {k for k, v in b.entries.items() if v[1] is not Dict.TOMB}
                if all(is_c(k) for k in ka | kb):
                    if ka != kb:
                        return False
                    return all(self.eq(a.entries[k][1], b.entries[k][1]) for k in sorted(ka, key=show))
                if len(ka) != len(kb):
                    return False            # the keys of one dict differ from each other
                todo = sorted(kb, key=show)
                for k in sorted(ka, key=show):
                    m = next((q for q in todo if q is k), None) or next((q for q in todo if self.eq(k, q)), None)
                    if m is None or not self.eq(a.entries[k][1], b.entries[m][1]):
                        return False
                    todo.remove(m)
                return True
            return self.eq_atom(self.freeze(a), self.freeze(b))
        if isinstance(a, Inst):
            if a.cls is None or b.cls is None:
                return False
            if a.cls is not b.cls:
                return False
            f = self.dc_fields(a.cls)
            if f is None or self.freeze(a).op == "enum":
                return a is b or (self.freeze(a).op == "enum" and self.freeze(a) is self.freeze(b))
            for n in f:
                if not self.eq(self.getattr_(a, n), self.getattr_(b, n)):
                    return False
            return True
        if isinstance(a, Nt):
            ea, eb = [x for _, x in a.d.entries.values()], [x for _, x in b.d.entries.values()]
            return len(ea) == len(eb) and all(self.eq(x, y) for x, y in zip(ea, eb))
        if isinstance(a, Func):
            return a.node is b.node
        if isinstance(a, Bound):
            return a.func is b.func and a.self_ is b.self_
        return False

    def eq_terms(self, a, b):
        if a is b:
            return True
        if a.op == "c" and b.op == "c":
            return a.a[0] == b.a[0]
        if literal(a) and literal(b):
            if a.op == "tuple" and b.op == "tuple" and len(a.a) == len(b.a):
                return all(self.eq_terms(x, y) for x, y in zip(a.a, b.a))
            return False
        if a.op == "ty" and b.op == "ty":
            if a.a[0] != b.a[0] or len(a.a) != len(b.a):
                return False
            return all(self.eq(x, y) for x, y in zip(a.a[1:], b.a[1:]))
        for x, y in ((a, b), (b, a)):
            if x.op == "ty" and y.op in ("ext", "class"):
                return False
            if x.op == "ty" and x.a[0] == "list" and self.facts.get(T("sym_is_plain", y)):
                return False
        ka, kb = self.kinds(a), self.kinds(b)
        if ka is not None and kb is not None and not self.may_equal(ka, kb):
            return False
        for x, y, k in ((a, b, ka), (b, a, kb)):
            if is_c(y) and y.a[0] is None:
                return self.is_(x, y)
            if is_c(y) and k is not None and isinstance(y.a[0], (str, int, float)):
                kk = kind_of_const(y.a[0])
                comp = NUM if kk in NUM else {kk}
                opaque = {q for q in k if q in ("obj", "dc", "ndarray", "tensor") or q.startswith("inst:")}
                if not self.split(x, comp | opaque):
                    return False
        # emptiness
        for x, y in ((a, b), (b, a)):
            if x.op == "len" and is_c(y) and y.a[0] == 0:
                z = x.a[0]
                if z.op == "ntfields":
                    return self.split(z.a[0], ["nt0"])
                k = self.kinds(z)
                if k is not None and k <= {"nt", "nt0"}:
                    return self.split(z, ["nt0"])
                return not self.truth(z)
            if is_c(y) and y.a[0] == "" and self.kinds(x) == {"str"}:
                return not self.decide(T("truth", x))
            if x.op == "tuple" and not x.a and y.op != "tuple":
                return self.eq(Seq("tuple", []), y)
        if a.op == "join" and b.op == "join" and len(a.a) == len(b.a):
            diff = [(x, y) for x, y in zip(a.a, b.a) if x is not y]
            if len(diff) == 1:
                return self.eq(diff[0][0], diff[0][1])
            plain = lambda x: is_str_c(x) and x.a[0] not in ("", ".", "..") and "/" not in x.a[0]
            if a.a[0] is b.a[0]:
                # same base: names differ as soon as one of them does
                k = next((i for i, (x, y) in enumerate(zip(a.a, b.a)) if x is not y), 0)
                if plain(a.a[k]) and plain(b.a[k]) and all(plain(x) for x in a.a[k:] + b.a[k:]):
                    return False
        if a.op == "P" and b.op == "P":
            return self.eq(self.pkey(a), self.pkey(b))
        if a.op == "fmt" and b.op == "fmt" and a.a[1] is b.a[1] and self.fixed_len(a) is not None and self.fixed_len(b) is not None:
            return self.eq(a.a[0], b.a[0])
        if self.is_text(a) and self.is_text(b) and a.op != "join":
            l1, l2 = self.fixed_len(a), self.fixed_len(b)
            if l1 is not None and l2 is not None and l1 != l2:
                return False
        if a.op == "cat" and b.op == "cat" and len(a.a) == len(b.a):
            # equal constant frame: compare the unknown part
            diff = [(x, y) for x, y in zip(a.a, b.a) if x is not y]
            if len(diff) == 1 and not (is_c(diff[0][0]) and is_c(diff[0][1])):
                return self.eq(diff[0][0], diff[0][1])
        return self.eq_atom(a, b)

    def eq_atom(self, a, b):
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if literal(y) and x in self.bind:
                return self.eq(self.bind[x], y)
        if literal(a) and not literal(b):
            a, b = b, a
        elif not literal(b) and show(b) < show(a):
            a, b = b, a
        atom = T("eq", a, b)
        if self.facts.get(atom) is None and not is_str_c(b):
            e = self.order_edges()
            if e:
                r1, r2 = self.order_reach(e, a, b), self.order_reach(e, b, a)
                if r1 or r2:
                    return False
                if r1 is False and r2 is False:
                    self.facts[atom] = True
                    return True
        if self.facts.get(atom) is None:
            for l in (T("lt", a, b), T("lt", b, a)):
                if self.facts.get(l):
                    return False
            if is_c(b) and self.bounds_decide_eq(a, b.a[0]) is False:
                return False
        v = self.decide(atom)
        if v and literal(b) and a not in self.bind:
            if b.op == "c" and kind_of_const(b.a[0]) in NUM:
                ks = self.kinds(a)
                if ks is not None and len(ks) == 1:
                    self.bind[a] = b if ks == {kind_of_const(b.a[0])} else b
                else:
                    self.bind[a] = b
            else:
                self.bind[a] = b
        return v

    # ---------------------------------------------------------------- order
    def bounds_decide_eq(self, t, c):
        if not isinstance(c, (int, float)) or isinstance(c, bool):
            return None
        lo, hi = self.lo.get(t), self.hi.get(t)
        if lo and (lo[0] > c or (lo[0] == c and lo[1])):
            return False
        if hi and (hi[0] < c or (hi[0] == c and hi[1])):
            return False
        return None

    def order(self, dunder, a, b):
        a, b = self.bind_lit(a), self.bind_lit(b)
        refl = {"__lt__": "__gt__", "__gt__": "__lt__", "__le__": "__ge__", "__ge__": "__le__"}
        for x, y, d in ((a, b, dunder), (b, a, refl[dunder])):
            xo = x
            if isinstance(x, T):
                ks = self.kinds(x)
                if ks is not None and len(ks) == 1 and next(iter(ks)).startswith("inst:"):
                    xo = self.heapify(x)
            if isinstance(xo, Inst) and xo.cls is not None:
                owner, m = self.find_member(xo.cls, d)
                if m is not None:
                    return self.truth(self.call(self.func_of(owner, m), [xo, y], {}))
        fa, fb = self.freeze(a), self.freeze(b)
        if dunder == "__lt__":
            return self.lt(fa, fb)
        if dunder == "__gt__":
            return self.lt(fb, fa)
        if dunder == "__le__":
            return not self.lt(fb, fa)
        return not self.lt(fa, fb)

    def lt(self, a, b):
        a = self.bind.get(a, a)
        b = self.bind.get(b, b)
        if is_c(a) and is_c(b):
            try:
                return a.a[0] < b.a[0]
            except TypeError:
                self.raise_("TypeError", C("order"))
        if a is b:
            return False
        if a.op == "tuple" and b.op == "tuple" and len(a.a) == len(b.a):
            for x, y in zip(a.a, b.a):
                if self.eq(x, y):
                    continue
                return self.lt(x, y)
            return False
        for x in (a, b):
            if not is_c(x):
                ks = self.kinds(x)
                if ks is not None and ks == {"none"}:
                    self.raise_("TypeError", C("order"))
        # emptiness
        if b.op == "len" and is_c(a) and a.a[0] == 0:
            return not self.eq(b, C(0))
        if a.op == "len" and is_c(b) and b.a[0] == 1:
            return self.eq(a, C(0))
        atom, rev = T("lt", a, b), T("lt", b, a)
        v = self.facts.get(atom)
        if v is not None:
            return v
        if self.facts.get(rev):
            return False
        e = self.facts.get(T("eq", *((a, b) if literal(b) or show(a) <= show(b) and not literal(a) else (b, a))))
        if e:
            return False
        d = self.bounds_lt(a, b)
        if d is not None:
            return d
        if self.is_text(a) and self.is_text(b):
            d = self.str_lt(a, b)
            if d is not None:
                return d
        d = self.order_known(a, b)
        if d is not None:
            return d
        if arith(a) or arith(b):
            d = self.alg_cmp(a, b)
            if d is not None:
                return d < 0
            d = self.alg_weak(a, b)
            if d is not None:
                return d
        v = self.decide(atom)
        self.note_bound(a, b, v)
        if e is False and not v:
            self.assume(rev, True)
        return v

    def is_text(self, t):
        return is_str_c(t) or t.op in ("cat", "fmt") or t.op == "join"

    def order_edges(self):
        """x <= y edges (strict?) from the facts of this trace (total order, no NaN)."""
        out = {}
        for (f, v) in self.fact_log:
            if f.op == "lt":
                x, y = f.a
                if v:
                    out.setdefault(x, []).append((y, True))
                else:
                    out.setdefault(y, []).append((x, False))
            elif f.op == "eq" and v:
                x, y = f.a
                out.setdefault(x, []).append((y, False))
                out.setdefault(y, []).append((x, False))
        return out

    def order_reach(self, edges, a, b):
        """None, or whether b is reachable from a (a <= b), with strictness"""
        best = {a: False}
        st = [a]
        while st:
            x = st.pop()
            for y, strict in edges.get(x, ()):
                n = best[x] or strict
                if y not in best or (n and not best[y]):
                    best[y] = n
                    st.append(y)
        return best.get(b)

    def order_known(self, a, b):
        e = self.order_edges()
        if not e:
            return None
        r = self.order_reach(e, a, b)
        if r:
            return True
        r2 = self.order_reach(e, b, a)
        if r2 is not None:
            return False
        return None

    def bounds_lt(self, a, b):
        if is_c(b) and isinstance(b.a[0], (int, float)):
            c = b.a[0]
            hi, lo = self.hi.get(a), self.lo.get(a)
            if hi and (hi[0] < c or (hi[0] == c and hi[1])):
                return True
            if lo and lo[0] >= c:
                return False
        if is_c(a) and isinstance(a.a[0], (int, float)):
            c = a.a[0]
            hi, lo = self.hi.get(b), self.lo.get(b)
            if lo and (lo[0] > c or (lo[0] == c and lo[1])):
                return True
            if hi and hi[0] <= c:
                return False
            if b.op in ("len", "idx") and c < 0:
                return True
        return None

    def note_bound(self, a, b, v):
        def up(d, t, c, strict, better):
            o = d.get(t)
            if o is None or better(c, o[0]) or (c == o[0] and strict):
                d[t] = (c, strict)
        if is_c(b) and isinstance(b.a[0], (int, float)):
            if v:
                up(self.hi, a, b.a[0], True, lambda x, y: x < y)
            else:
                up(self.lo, a, b.a[0], False, lambda x, y: x > y)
        if is_c(a) and isinstance(a.a[0], (int, float)):
            if v:
                up(self.lo, b, a.a[0], True, lambda x, y: x > y)
            else:
                up(self.hi, b, a.a[0], False, lambda x, y: x < y)

    # ---------------------------------------------------------------- membership
    def contains(self, c, k):
        c = self.bind_lit(c)
        if isinstance(c, T):
            ks = self.kinds(c)
            if ks is not None and len(ks) > 1:
                if "none" in ks and self.split(c, ["none"]):
                    pass
                else:
                    for g in (["dict"], ["str"], ["list", "tuple", "nt", "nt0", "set"]):
                        if self.split(c, g):
                            break
                ks = self.kinds(c)
            if ks is not None:
                if ks <= {"none", "int", "float", "bool", "obj?", "enum", "dc"}:
                    self.raise_("TypeError", C("not a container"))
                c = self.heapify(c)
        if isinstance(c, Dict):
            return self.dict_has(c, k)
        if c.__class__.__name__ == "View":
            if c.what == "keys":
                return self.dict_has(c.d, k)
            c = Seq("list", [x if kd == "v" else Star(x()) for kd, x in self.dict_segments(c.d, c.what)])
        if isinstance(c, Seq):
            for i in c.items:
                if not isinstance(i, Star):
                    if self.eq(i, k):
                        return True
            if c.has_star():
                return self.decide(T("in", self.freeze(k), self.freeze(c)))
            return False
        if isinstance(c, Nt):
            return any(self.eq(x, k) for _, x in c.d.entries.values())
        if isinstance(c, ClassObj) and self.is_enum_class(c):
            return self.decide(T("in", self.freeze(k), self.freeze(c)))
        if isinstance(c, Inst) and c.cls is not None:
            owner, m = self.find_member(c.cls, "__contains__")
            if m is not None:
                return self.truth(self.call(self.func_of(owner, m), [c, k], {}))
        if isinstance(c, T):
            kf = self.freeze(k)
            if is_str_c(c) and is_str_c(kf):
                return kf.a[0] in c.a[0]
            if is_str_c(kf) and self.numeric_text(c) and re.search(r"[^-+.0-9e_infa]", kf.a[0]):
                return False
            if c.op in ("cat", "join") and is_str_c(kf):
                for p in c.a:
                    if is_str_c(p) and kf.a[0] in p.a[0]:
                        return True
                unknown = [p for p in c.a if not is_c(p) and not (self.numeric_text(p) and re.search(r"[^-+.0-9e_infa]", kf.a[0]))]
                if not unknown and len(kf.a[0]) == 1:
                    return False
                if len(unknown) == 1 and len(kf.a[0]) == 1:
                    return self.contains(unknown[0], k)
            if c.op == "tuple":
                return any(self.eq(x, k) for x in c.a)
            if c.op in ("before", "before1") and c.a[1] is kf:
                return False
            return self.decide(T("in", kf, c))
        self.imprecise("membership")

    # ---------------------------------------------------------------- dicts
    def dict_has(self, d, k):
        k = self.bind_const(k)
        kf = self.freeze(k)
        e = d.entries.get(kf)
        if e is not None:
            return e[1] is not Dict.TOMB
        ks = self.kinds(kf) if isinstance(kf, T) else None
        for k2, (kk, v) in list(d.entries.items()):
            if is_c(kf) and is_c(k2):
                if kf.a[0] == k2.a[0]:
                    return v is not Dict.TOMB
                continue
            if self.eq(kf, k2):
                return v is not Dict.TOMB
        for sk, sv in d.stars:
            if self.freeze(sk) is kf:
                return True
        if d.stars:
            if self.decide(T("in", kf, T("stars", *[self.freeze(x) for x, _ in d.stars]))):
                return True
        if d.base is not None:
            return self.decide(T("in", kf, d.base))
        return False

    def dict_get(self, d, k):
        """value of a key known to be present"""
        k = self.bind_const(k)
        kf = self.freeze(k)
        e = d.entries.get(kf)
        if e is not None and e[1] is not Dict.TOMB:
            v = e[1]
            return v.get() if isinstance(v, Lazy_) else v
        for k2, (kk, v) in d.entries.items():
            if v is Dict.TOMB:
                continue
            if is_c(kf) and is_c(k2):
                if kf.a[0] == k2.a[0]:
                    return v
                continue
            if self.facts.get(T("eq", kf, k2)) or self.facts.get(T("eq", k2, kf)) or self.bind.get(kf) is k2:
                return v
        for sk, sv in d.stars:
            if self.freeze(sk) is kf:
                return sv
        if d.stars and self.facts.get(T("in", kf, T("stars", *[self.freeze(x) for x, _ in d.stars]))):
            return T("item", self.freeze(d), kf)
        if d.base is not None:
            v = T("item", d.base, kf)
            d.entries[kf] = (k, v)
            return v
        return T("item", self.freeze(d), kf)

    def dict_update(self, d, o):
        o = self.heapify(o)
        if isinstance(o, Dict):
            for k, v in list(o.entries.values()):
                if v is Dict.TOMB:
                    continue
                self.dict_set(d, k, v)
            d.stars.extend(o.stars)
            if o.base is not None:
                if d.base is None and not d.entries and not d.stars:
                    d.base = o.base
                    for k, (kk, v) in o.entries.items():
                        if v is Dict.TOMB:
                            d.entries[k] = (kk, v)
                else:
                    kt = T("key", o.base, self.new_idx(o.base))
                    d.stars.append((kt, T("item", o.base, kt)))
            return
        if isinstance(o, T):
            if d.base is None and not d.entries and not d.stars:
                d.base = o
            else:
                kt = T("key", o, self.new_idx(o))
                d.stars.append((kt, T("item", o, kt)))
            return
        if isinstance(o, Seq) and not o.has_star():
            for i in o.items:
                self.dict_set(d, self.getitem(i, C(0)), self.getitem(i, C(1)))
            return
        self.imprecise("dict update")

    def dict_set(self, d, k, v):
        k = self.bind_const(k)
        kf = self.freeze(k)
        if not is_c(kf):
            # a key that may equal a known one
            for k2 in list(d.entries):
                if k2 is not kf and self.facts.get(T("eq", kf, k2)):
                    kf, k = k2, d.entries[k2][0]
                    break
        if kf in d.entries and d.entries[kf][1] is Dict.TOMB:
            del d.entries[kf]
        d.entries[kf] = (k, v)
        d.writes.append((kf, v, False))
        if getattr(d, "watch", None):
            self.event("dictset", C(d.watch), k, v)

    def dict_del(self, d, k):
        k = self.bind_const(k)
        kf = self.freeze(k)
        for k2 in list(d.entries):
            if k2 is kf or self.facts.get(T("eq", kf, k2)):
                kf = k2
                k = d.entries[k2][0]
        if d.base is not None or d.stars:
            d.entries[kf] = (k, Dict.TOMB)
        else:
            d.entries.pop(kf, None)
        d.writes.append((kf, Dict.TOMB, False))
        if getattr(d, "watch", None):
            self.event("dictdel", C(d.watch), k)

    # ---------------------------------------------------------------- items
    def getitem(self, c, k):
        c = self.bind_lit(c)
        k = self.bind_const(k)
        if isinstance(c, T):
            if c.op == "ext" or c.op == "attr" and is_ext(c.a[0]) if isinstance(c, T) and c.a else False:
                return self.ext_subscript(c, k)
            ks = self.kinds(c)
            if ks is not None and ks != {"class"}:
                if "none" in ks:
                    if self.split(c, ["none"]):
                        self.raise_("TypeError", C("None is not subscriptable"))
                ks = self.kinds(c)
                if len(ks) > 1 and "dict" in ks:
                    self.split(c, ["dict"])
                    ks = self.kinds(c)
                if ks <= {"int", "float", "bool", "none"}:
                    self.raise_("TypeError", C("not subscriptable"))
                if ks & {"str"} and ks <= {"str", "int", "float", "bool", "list", "tuple"} and is_str_c(k):
                    self.raise_("TypeError", C("indices must be integers"))
            h = self.heapify(c)
            if isinstance(h, Dict):
                c = h
            elif isinstance(h, Seq):
                c = h
            elif isinstance(h, Inst) and h.cls is not None:
                owner, m = self.find_member(h.cls, "__getitem__")
                if m is not None:
                    return self.call(self.func_of(owner, m), [h, k], {})
                return T("item", c, self.freeze(k))
            else:
                return self.t_getitem(c, k)
        if isinstance(c, Dict):
            if not self.dict_has(c, k):
                self.raise_("KeyError", k)
            return self.dict_get(c, k)
        if isinstance(c, Seq):
            return self.seq_get(c, k)
        if isinstance(c, Nt):
            vals = [x for _, x in c.d.entries.values()]
            if is_c(k):
                if not isinstance(k.a[0], int):
                    self.raise_("TypeError", C("tuple indices must be integers"))
                if not -len(vals) <= k.a[0] < len(vals):
                    self.raise_("IndexError", k)
                return vals[k.a[0]]
            return T("item", self.freeze(c), self.freeze(k))
        if isinstance(c, ClassObj):
            if self.is_enum_class(c):
                if is_str_c(k):
                    m = self.enum_members(c)
                    if k.a[0] in m:
                        return m[k.a[0]]
                    self.raise_("KeyError", k)
                return T("item", self.freeze(c), self.freeze(k))
            return c      # generic class
        if isinstance(c, Inst) and c.cls is not None:
            owner, m = self.find_member(c.cls, "__getitem__")
            if m is not None:
                return self.call(self.func_of(owner, m), [c, k], {})
        if isinstance(c, Super):
            self.imprecise("super item")
        self.imprecise("subscript of %r" % (c,))

    def seq_get(self, s, k):
        if isinstance(k, T) and k.op == "sl":
            lo, hi, st = k.a
            if not s.has_star() and all(is_c(x) for x in k.a):
                return Seq(s.kind, s.items[slice(*[x.a[0] for x in k.a])])
            # prefix/suffix slices that stay on the known side
            if st is NONE and is_c(lo) and is_c(hi):
                l, h = lo.a[0] or 0, hi.a[0]
                first = next((i for i, x in enumerate(s.items) if isinstance(x, Star)), len(s.items))
                if h is None and l >= 0 and l <= first:
                    return Seq(s.kind, s.items[l:])
                if h is not None and 0 <= l and 0 <= h <= first:
                    return Seq(s.kind, s.items[l:h])
                last = next((i for i, x in enumerate(reversed(s.items)) if isinstance(x, Star)), len(s.items))
                if l == 0 and h is not None and h < 0 and -h <= last:
                    return Seq(s.kind, s.items[:h])
                if h is None and l < 0 and -l <= last:
                    return Seq(s.kind, s.items[l:])
            return T("slice", self.freeze(s), *k.a)
        if is_c(k) and isinstance(k.a[0], int):
            i = k.a[0]
            seq = s.items if i >= 0 else list(reversed(s.items))
            j = i if i >= 0 else -i - 1
            if j < len(seq) and not any(isinstance(x, Star) for x in seq[: j + 1]):
                return seq[j]
            if not s.has_star():
                self.raise_("IndexError", k)
            if s.kind == "set":
                self.raise_("TypeError", k)
            if s.base is not None and all(isinstance(x, Star) and x.value is None for x in s.items[:1]) and i >= 0 and len(s.items) == 1:
                return T("item", s.base, k)
            return T("item", self.freeze(s), k)
        if s.base is not None and len(s.items) == 1:
            return T("item", s.base, self.freeze(k))
        if isinstance(k, T) and k.op == "idx" and len(s.items) == 1 and isinstance(s.items[0], Star):
            return s.items[0].value
        return T("item", self.freeze(s), self.freeze(k))

    def t_getitem(self, c, k):
        kf = self.freeze(k)
        if is_c(c) and isinstance(c.a[0], str):
            if isinstance(kf, T) and kf.op == "sl" and all(is_c(x) for x in kf.a):
                return C(c.a[0][slice(*[x.a[0] for x in kf.a])])
            if is_c(kf):
                try:
                    return C(c.a[0][kf.a[0]])
                except IndexError:
                    self.raise_("IndexError", kf)
                except TypeError:
                    self.raise_("TypeError", kf)
        if isinstance(kf, T) and kf.op == "sl":
            ks = self.kinds(c)
            if c.op == "tuple" and all(is_c(x) for x in kf.a):
                return T("tuple", *c.a[slice(*[x.a[0] for x in kf.a])])
            if ks == {"str"} or c.op in ("basename", "cat", "fmt", "strop"):
                return self.str_slice(c, kf)
            return T("slice", c, *kf.a)
        if c.op in ("tuple", "list") and is_c(kf) and isinstance(kf.a[0], int) and -len(c.a) <= kf.a[0] < len(c.a):
            return c.a[kf.a[0]]
        if self.in_handler("builtins.KeyError") and not is_c(c):
            ks = self.kinds(c)
            if ks is None or "dict" in ks:
                if not self.decide(T("in", kf, c)):
                    self.raise_("KeyError", k)
        return T("item", c, kf)

    def setitem(self, c, k, v):
        c0 = c
        c = self.heapify(self.bind_lit(c))
        if isinstance(c, T):
            ks = self.kinds(c)
            if ks is not None and ks <= {"none", "int", "float", "bool", "str"}:
                self.raise_("TypeError", C("no item assignment"))
            if ks is not None and len(ks) > 1:
                if self.split(c, ["dict"]):
                    c = self.heapify(c)
                elif self.split(c, ["list"]):
                    c = self.heapify(c)
                else:
                    self.raise_("TypeError", C("no item assignment"))
            elif ks is None:
                d = Dict(base=c)
                self.heap[c] = d
                c = d
        if isinstance(c, Dict):
            self.dict_set(c, k, v)
            return
        if isinstance(c, Seq):
            k = self.bind_const(k)
            if c.kind == "tuple" or is_c(k) and not isinstance(k.a[0], int):
                self.raise_("TypeError", C("no item assignment"))
            if is_c(k) and isinstance(k.a[0], int) and not c.has_star():
                try:
                    c.items[k.a[0]] = v
                except IndexError:
                    self.raise_("IndexError", k)
                return
            ov = getattr(c, "overlay", None)
            if ov is None:
                c.overlay = ov = []
            ov.append((self.freeze(k), v))
            self.event("seqset", c, k, v)
            c.items.append(Star(T("set_at", self.freeze(k), self.freeze(v))))
            return
        if isinstance(c, Inst) and c.cls is not None:
            owner, m = self.find_member(c.cls, "__setitem__")
            if m is not None:
                self.call(self.func_of(owner, m), [c, k, v], {})
                return
        if isinstance(c, (Nt,)):
            self.raise_("TypeError", C("no item assignment"))
        self.event("setitem", c, k, v)

    def delitem(self, c, k):
        c = self.heapify(self.bind_lit(c))
        if isinstance(c, T):
            ks = self.kinds(c)
            if ks is None:
                d = Dict(base=c)
                self.heap[c] = d
                c = d
            elif len(ks) > 1 and self.split(c, ["dict"]):
                c = self.heapify(c)
        if isinstance(c, Dict):
            if not self.dict_has(c, k):
                self.raise_("KeyError", k)
            self.dict_del(c, k)
            return
        if isinstance(c, Seq) and not c.has_star() and is_c(k):
            if c.kind == "tuple" or not isinstance(k.a[0], int):
                self.raise_("TypeError", C("no item deletion"))
            if not -len(c.items) <= k.a[0] < len(c.items):
                self.raise_("IndexError", k)
            del c.items[k.a[0]]
            return
        self.imprecise("del item")

    # ---------------------------------------------------------------- sequences
    def seq_extend(self, s, v):
        s.items.extend(self.spread(v))

    def new_idx(self, base):
        i = T("idx", self.fresh("idx"))
        self.idx_of[i] = base
        return i

    def segments(self, v):
        """Abstract iteration: list of ('v', value) and ('star', maker)."""
        v = self.bind_lit(v)
        if isinstance(v, T):
            ks = self.kinds(v)
            if ks is not None and ks <= {"none", "int", "float", "bool"}:
                self.raise_("TypeError", C("not iterable"))
            if is_str_c(v):
                return [("v", C(ch)) for ch in v.a[0]]
            if v.op == "tuple":
                return [("star", (lambda s=x: s.a[0])) if isinstance(x, T) and x.op == "star" else ("v", x) for x in v.a]
            if ks is not None and len(ks) == 1:
                v2 = self.heapify(v)
                if not isinstance(v2, T):
                    return self.segments(v2)
            return [("star", lambda: T("item", v, self.new_idx(v)))]
        if isinstance(v, Seq):
            out = []
            it = list(v.items)
            if v.kind == "gen":
                v.items = []
            for x in it:
                if isinstance(x, Star):
                    if x.value is None:
                        out.append(("star", lambda b=v.base: T("item", b, self.new_idx(b))))
                    else:
                        out.append(("star", lambda x=x: x.value))
                else:
                    out.append(("v", x))
            return out
        if isinstance(v, Dict):
            return self.dict_segments(v, "keys")
        if v.__class__.__name__ == "View":
            return self.dict_segments(v.d, v.what)
        if isinstance(v, Nt):
            return [("v", x) for _, x in v.d.entries.values()]
        if isinstance(v, ClassObj) and self.is_enum_class(v):
            return [("v", m) for m in self.enum_members(v).values()]
        if isinstance(v, Inst) and v.cls is not None:
            owner, m = self.find_member(v.cls, "__iter__")
            if m is not None:
                return self.segments(self.call(self.func_of(owner, m), [v], {}))
            if self.is_exc_class(v.cls):
                self.raise_("TypeError")
        if isinstance(v, (ClassObj, Func, Exc)):
            self.raise_("TypeError", C("not iterable"))
        self.imprecise("iteration over %r" % (v,))

    def dict_segments(self, d, what):
        out = []

        def pick(k, v):
            if isinstance(v, Lazy_):
                v = v.get()
            return k if what == "keys" else v if what == "values" else Seq("tuple", [k, v])
        for k, v in list(d.entries.values()):
            if v is Dict.TOMB:
                continue
            kf = self.freeze(k)
            if d.base is not None and isinstance(v, T) and v.op == "item" and v.a[0] is d.base and v.a[1] is kf \
                    and not any(w[0] is kf for w in d.writes):
                continue      # merely looked up: covered by the generic entry of the base
            out.append(("v", pick(k, v)))
        for k, v in d.stars:
            out.append(("star", lambda k=k, v=v: pick(k, v)))
        if d.base is not None:
            def mk():
                kt = T("key", d.base, self.new_idx(d.base))
                self.facts[T("in", kt, d.base)] = True
                hk = self.tags.get(("keykinds", d.base))
                self.kindmap.setdefault(kt, frozenset(hk or ["str"]))
                for k2, (kk, v2) in list(d.entries.items()):
                    if v2 is Dict.TOMB or any(w[0] is k2 for w in d.writes):
                        # overwritten or deleted entries are not part of the rest
                        self.facts[T("eq", kt, k2)] = False
                vt = T("item", d.base, kt)
                return pick(kt, vt)
            out.append(("star", mk))
        return out

    # ---------------------------------------------------------------- arithmetic
    def binop(self, op, a, b):
        a, b = self.bind_lit(a), self.bind_lit(b)
        if is_c(a) and is_c(b):
            try:
                return C(PYOPS[op](a.a[0], b.a[0]))
            except ZeroDivisionError:
                self.raise_("ZeroDivisionError")
            except TypeError:
                self.raise_("TypeError", C(op))
            except KeyError:
                self.imprecise("operator")
        if isinstance(a, Inst) and a.cls is not None:
            names = {"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__", "|": "__or__", "&": "__and__"}
            owner, m = self.find_member(a.cls, names.get(op, "?"))
            if m is not None:
                return self.call(self.func_of(owner, m), [a, b], {})
        if op == "/" and (self.kinds(a) == {"path"} or self.kinds(b) == {"path"}):
            return self.path_join(a, b)
        if op == "+":
            ka, kb = self.kinds(a), self.kinds(b)
            if ka == {"str"} or kb == {"str"}:
                for x, k in ((a, ka), (b, kb)):
                    if k is not None and "str" not in k and "obj" not in k:
                        self.raise_("TypeError", C("can only concatenate str"))
                return self.cat([a, b])
            if isinstance(a, Seq) or isinstance(b, Seq):
                kind = a.kind if isinstance(a, Seq) else b.kind
                for x in (a, b):
                    if isinstance(x, Seq) and x.kind != kind:
                        self.raise_("TypeError", C("can only concatenate"))
                return Seq(kind, self.spread(a) + self.spread(b))
        if op == "*" and isinstance(a, Seq) and is_c(b):
            return Seq(a.kind, a.items * b.a[0])
        if op == "%" and is_str_c(a):
            return self.percent(a, b)
        if op == "|" and isinstance(a, Dict):
            d = Dict()
            self.dict_update(d, a)
            self.dict_update(d, b)
            return d
        if op in ("-", "|", "&", "^"):
            # sets and key views
            fa, fb = self.freeze(a), self.freeze(b)
            if (isinstance(a, Seq) or isinstance(b, Seq) or self.kinds(a) == {"set"} or fa.op in ("setof", "keys") or fb.op in ("setof", "keys")):
                return self.set_op(op, a, b)
        fa, fb = self.freeze(a), self.freeze(b)
        # neutral elements (the other operand keeps its type)
        ka, kb = self.kinds(a), self.kinds(b)

        def neutral(c, n, other):
            return is_c(c) and c.a[0] == n and not isinstance(c.a[0], bool) and (isinstance(c.a[0], int) or other == {"float"} or other is None) and (other is None or "bool" not in other)

        if op in ("+", "-") and neutral(fb, 0, ka) or op == "*" and neutral(fb, 1, ka):
            return fa
        if op == "+" and neutral(fa, 0, kb) or op == "*" and neutral(fa, 1, kb):
            return fb
        t = T("op", op, fa, fb)
        num = {"int", "float", "bool"}
        if op in ("+", "-", "*", "/", "//", "%", "**") and ka is not None and kb is not None:
            if ka <= num and kb <= num:
                r = {"float"} if op == "/" or ka == {"float"} or kb == {"float"} else {"int"} if op != "**" and not (ka | kb) & {"float"} else {"int", "float"}
                self.kindmap.setdefault(t, frozenset(r))
            elif op in ("-", "/", "//", "**") and (ka <= num | {"none", "str", "list", "dict", "tuple"} and kb <= num | {"none", "str", "list", "dict", "tuple"}) and not (ka & num and kb & num):
                self.raise_("TypeError", C(op))
        return t

    def set_op(self, op, a, b):
        sa, sb = self.as_items(a), self.as_items(b)
        if sa is not None and sb is not None and all(is_c(self.freeze(x)) for x in sa + sb):
            inb = lambda x, s: any(self.freeze(x) is self.freeze(y) for y in s)
            if op == "-":
                r = [x for x in sa if not inb(x, sb)]
            elif op == "&":
                r = [x for x in sa if inb(x, sb)]
            elif op == "|":
                r = sa + [x for x in sb if not inb(x, sa)]
            else:
                r = [x for x in sa if not inb(x, sb)] + [x for x in sb if not inb(x, sa)]
            return Seq("set", r)
        names = {"-": "setdiff", "|": "setor", "&": "setand", "^": "setxor"}
        t = T(names[op], self.set_norm(a), self.set_norm(b))
        self.kindmap.setdefault(t, frozenset(["set"]))
        return t

    def as_items(self, v):
        v = self.deref(v)
        if v.__class__.__name__ == "View":
            if v.d.base is None and not v.d.stars:
                return [x for kd, x in self.dict_segments(v.d, v.what)]
            return None
        if isinstance(v, Seq) and not v.has_star():
            return list(v.items)
        if isinstance(v, Dict) and v.base is None and not v.stars:
            return [k for k, x in v.entries.values() if x is not Dict.TOMB]
        return None

    def set_norm(self, v):
        """set(x), x.keys(), set(x.keys()), {k for k in x} -> setof(x)"""
        if v.__class__.__name__ == "View":
            return T("setof", self.freeze(v.d) if v.what == "keys" else T(v.what, self.freeze(v.d)))
        f = self.freeze(v)
        if f.op in ("setof",):
            return f
        if f.op == "set" and len(f.a) == 1 and isinstance(f.a[0], T) and f.a[0].op == "star":
            e = f.a[0].a[0]
            if isinstance(e, T) and e.op == "item" and isinstance(e.a[1], T) and e.a[1].op == "idx":
                return T("setof", e.a[0])
            if isinstance(e, T) and e.op == "key":
                return T("setof", e.a[0])
            return T("setof", e)
        return T("setof", f)

    # ---------------------------------------------------------------- class tests
    def isinst(self, v, cls):
        cls = self.bind_lit(cls)
        v = self.bind_lit(v)
        if isinstance(cls, Seq):
            return any(self.isinst(v, c) for c in cls.items)
        if isinstance(cls, T) and cls.op == "tuple":
            return any(self.isinst(v, c) for c in cls.a)
        if isinstance(cls, T) and cls.op == "type" or (isinstance(cls, T) and cls.op == "sym"):
            return self.decide(T("isinst", self.freeze(v), cls))
        if isinstance(cls, T) and cls.op == "ty":
            # isinstance against a typing construct is an error in Python
            if cls.a[0] in ("Union",):
                self.raise_("TypeError", C("isinstance with a subscripted generic"))
            self.raise_("TypeError", C("isinstance with a subscripted generic"))
        if isinstance(cls, T) and cls.op != "ext":
            return self.decide(T("isinst", self.freeze(v), cls))
        if isinstance(v, ClassObj):
            if is_ext(cls):
                if cls.a[0] in ("builtins.type", "builtins.object"):
                    return True
                if cls.a[0] == "enum.EnumMeta":
                    return self.is_enum_class(v)
                if cls.a[0] == "abc.ABCMeta":
                    return True
            return False
        if isinstance(v, T) and v.op == "ext":
            if is_ext(cls):
                return self.ext_isinst(v.a[0], cls.a[0])
            return False
        if isinstance(v, T) and v.op == "ty":
            return is_ext(cls, "builtins.object") or is_ext(cls, "typing._GenericAlias")
        if isinstance(v, Inst) and v.cls is not None:
            m = self.mro(v.cls)
            if is_ext(cls, "builtins.object"):
                return True
            if any(c is cls or (isinstance(c, T) and c is cls) for c in m):
                return True
            if is_ext(cls):
                ec = ext_is_exc(cls.a[0])
                if ec:
                    from .engine import exc_sub
                    return any(isinstance(c, T) and c.op == "ext" and exc_sub(c.a[0], cls.a[0]) for c in m)
            return False
        if isinstance(v, Exc):
            from .engine import exc_sub
            return is_ext(cls) and exc_sub(v.cls, cls.a[0])
        if isinstance(v, Inst):
            return False
        if isinstance(v, (Func, Bound, Native)):
            return is_ext(cls) and cls.a[0] in ("builtins.object", "types.FunctionType", "typing.Callable", "collections.abc.Callable")
        if is_ext(cls, "builtins.object"):
            return True
        if isinstance(v, (Seq, Dict, Nt)) or is_c(v):
            k = next(iter(self.kinds(v)))
            if is_ext(cls):
                ks = KIND_OF_EXT.get(cls.a[0])
                if ks is None:
                    return False
                return k in ks
            return False
        # unknown term
        ks = self.kinds(v)
        if ks is None:
            a = self.facts.get(T("isinst", v, self.freeze(cls)))
            if a is not None:
                return a
            if isinstance(cls, ClassObj):
                r = self.decide(T("isinst", v, self.freeze(cls)))
                if r:
                    self.refine(v, ["inst:" + cls.qual])
                return r
            ks = BASE_KINDS
        if is_ext(cls):
            yes = KIND_OF_EXT.get(cls.a[0])
            if yes is None:
                return self.decide(T("isinst", v, cls))
            maybe = {k for k in ks if k == "obj"}
            if cls.a[0] == "enum.EnumMeta" or cls.a[0] == "builtins.type":
                return self.decide(T("isinst", v, cls)) if "class" in ks else False
            return self.split(v, yes, ("isinst", cls.a[0]))
        q = cls.qual
        yes, no, maybe = set(), set(), set()
        for k in ks:
            if k.startswith("inst:"):
                co = self.class_by_qual(k[5:])
                if co is None:
                    maybe.add(k)
                elif co is cls or cls in self.mro(co):
                    yes.add(k)
                elif co in self.mro(cls):
                    maybe.add(k)
                elif self.unrelated(co, cls):
                    no.add(k)
                else:
                    maybe.add(k)
            elif k == "obj" or (k == "dc" and self.is_dataclass_cls(cls)) or (k == "dc"):
                maybe.add(k)
            elif k == "enum" and self.is_enum_class(cls):
                maybe.add(k)
            else:
                no.add(k)
        if not maybe:
            return self.split(v, yes, ("isinst", q))
        atom = T("isinst", v, self.freeze(cls))
        if not self.split(v, yes | maybe, ("isinst?", q)):
            return False
        if self.kinds(v) <= yes:
            return True
        r = self.decide(atom)
        if r:
            cur = self.kinds(v)
            keep = {k for k in cur if k in yes}
            if cur & {"obj", "dc", "enum"} or not keep:
                keep |= {"inst:" + q} | {k for k in cur if k in maybe and k.startswith("inst:") and self.class_by_qual(k[5:]) is not None
                                         and not (self.class_by_qual(k[5:]) in self.mro(cls))}
            self.refine(v, keep)
        return r

    def unrelated(self, a, b):
        """no object can be an instance of both"""
        def final(c):
            return c.info.module.name.startswith("hyperstate.schema.") and not any(
                is_ext(x) and x.a[0] in ("abc.ABC",) for x in self.mro(c))
        return final(a) or final(b)

    def issub(self, c, d):
        c, d = self.thaw_cls(self.bind_lit(c)), self.thaw_cls(self.bind_lit(d))
        if isinstance(d, Seq):
            return any(self.issub(c, x) for x in d.items)
        if isinstance(c, ClassObj):
            m = self.mro(c)
            if any(x is d for x in m) or is_ext(d, "builtins.object"):
                return True
            if is_ext(d) and is_ext(d, "enum.Enum"):
                return self.is_enum_class(c)
            return False
        if isinstance(c, T) and c.op == "ext":
            if c is d or is_ext(d, "builtins.object"):
                return True
            if is_ext(d):
                if c.a[0] == "builtins.bool" and d.a[0] == "builtins.int":
                    return True
                return False
            return False
        if isinstance(c, T) and c.op == "ty":
            self.raise_("TypeError", C("issubclass() arg 1 must be a class"))
        return self.decide(T("issub", self.freeze(c), self.freeze(d)))

    def ext_isinst(self, name, cls):
        if cls == "builtins.object":
            return True
        BT = {"builtins.int", "builtins.str", "builtins.float", "builtins.bool", "builtins.dict", "builtins.list",
              "builtins.tuple", "builtins.set", "builtins.bytes", "builtins.NoneType", "enum.Enum", "pathlib.Path",
              "builtins.object", "builtins.type", "numpy.ndarray", "torch.Tensor"}
        if cls == "builtins.type":
            return name in BT
        if cls == "enum.EnumMeta":
            return name == "enum.Enum"
        return False


def ext_is_exc(n):
    from .engine import ext_exc_class
    return ext_exc_class(n) is not None
