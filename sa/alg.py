"""Rational functions over the unknown numbers of a trace: a normal form for arithmetic terms.

Arithmetic is taken over the reals; the rounding of floating point operations is not part of what is decided."""
import math
from fractions import Fraction
from .terms import *

MATH = ("cos", "sin", "exp", "sqrt", "tan", "log")


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        c = r.get(m, 0) + k * c
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items()), key=lambda y: show(y[0])))


def pmul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


ONE = {(): Fraction(1)}


def const(p):
    """value of a constant polynomial, or None"""
    return Fraction(0) if not p else p[()] if set(p) == {()} else None


def proportional(p, q):
    """c with p == c * q, or None"""
    if not q or set(p) != set(q):
        return Fraction(0) if not p and q else None
    cs = {p[m] / q[m] for m in p}
    return cs.pop() if len(cs) == 1 else None


def norm(n, d):
    c = proportional(n, d)
    if c is not None:
        return ({(): c} if c else {}), ONE
    k = const(d)
    if k is None:
        lead = d[max(d, key=lambda m: [(show(a), e) for a, e in m])]
    else:
        lead = k
    if lead == 0:
        return None
    return {m: c / lead for m, c in n.items()}, {m: c / lead for m, c in d.items()}


def key(r):
    f = lambda p: " + ".join("%s*%s" % (c, ".".join("%s^%d" % (show(a), e) for a, e in m)) for m, c in sorted(p.items(), key=lambda x: [(show(a), e) for a, e in x[0]]))
    return f(r[0]) + " / " + f(r[1])


def atom(t):
    return {((t, 1),): Fraction(1)}, ONE


def rat(t, depth=0):
    """(numerator, denominator) of a numeric term, or None"""
    if not isinstance(t, T) or depth > 200:
        return None
    if t.op == "c":
        v = t.a[0]
        if isinstance(v, (int, float)) and (not isinstance(v, float) or math.isfinite(v)):
            v = Fraction(v)
            return ({(): v} if v else {}), ONE
        return None
    if t.op == "op":
        o, a, b = t.a
        x, y = rat(a, depth + 1), rat(b, depth + 1)
        if x is None or y is None:
            return None
        (n1, d1), (n2, d2) = x, y
        if o in ("+", "-"):
            k = 1 if o == "+" else -1
            if d1 == d2:
                return norm(padd(n1, n2, k), d1)
            return norm(padd(pmul(n1, d2), pmul(n2, d1), k), pmul(d1, d2))
        if o == "*":
            return norm(pmul(n1, n2), pmul(d1, d2))
        if o == "/":
            return norm(pmul(n1, d2), pmul(d1, n2)) if n2 else None
        if o == "**":
            e = const(n2) if d2 == ONE else None
            if e is not None and e.denominator == 1 and 0 <= e <= 6:
                n, d = ONE, ONE
                for _ in range(int(e)):
                    n, d = pmul(n, n1), pmul(d, d1)
                return norm(n, d)
        return atom(t)
    if t.op == "neg":
        x = rat(t.a[0], depth + 1)
        return None if x is None else ({m: -c for m, c in x[0].items()}, x[1])
    if t.op == "float":
        return rat(t.a[0], depth + 1)
    if t.op == "call" and isinstance(t.a[0], str) and t.a[0].startswith("math.") and t.a[0][5:] in MATH and len(t.a) == 2:
        x = rat(t.a[1], depth + 1)
        if x is None:
            return None
        c = const(x[0]) if x[1] == ONE else None
        if c is not None:
            try:
                v = Fraction(getattr(math, t.a[0][5:])(float(c)))
                return ({(): v} if v else {}), ONE
            except (ValueError, OverflowError):
                return None
        return atom(T("fn", t.a[0], key(x)))
    if t.op == "int":
        x = rat(t.a[0], depth + 1)
        if x is None:
            return atom(t)
        c = const(x[0]) if x[1] == ONE else None
        if c is not None:
            return {(): Fraction(int(c))} if int(c) else {}, ONE
        return atom(T("fn", "int", key(x)))
    if t.op in ("sym", "item", "attr", "intfloat"):
        return atom(t)
    return atom(t)


def equal(a, b):
    """True: the same rational function; False: differ by a constant; None otherwise"""
    x, y = rat(a), rat(b)
    if x is None or y is None:
        return None
    d = padd(pmul(x[0], y[1]), pmul(y[0], x[1]), -1)
    return True if not d else None


class AlgMixin:
    def sign_poly(self, p):
        """-1, 0, 1 or None"""
        c = const(p)
        if c is not None:
            return (c > 0) - (c < 0)
        # common factors
        common = None
        for m in p:
            d = dict(m)
            common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d}
        s = 1
        if common:
            for a, e in common.items():
                for _ in range(e):
                    sa = self.sign_atom(a)
                    if sa is None:
                        return None
                    s *= sa
            q = {}
            for m, c in p.items():
                d = dict(m)
                for a, e in common.items():
                    d[a] -= e
                q[tuple((a, e) for a, e in m if False) or tuple((a, d[a]) for a, _ in m if d[a])] = c
            p = q
            if s == 0:
                return 0
            c = const(p)
            if c is not None:
                return s * ((c > 0) - (c < 0))
        if len(p) == 2:
            (m1, c1), (m2, c2) = sorted(p.items(), key=lambda x: len(x[0]), reverse=True)
            if len(m1) == 1 and m1[0][1] == 1:
                a = m1[0][0]
                if m2 == ():
                    v = -c2 / c1
                    v = int(v) if v.denominator == 1 else float(v)
                    r = self.cmp_known(a, C(v))
                    if r is None and isinstance(v, int):
                        r = self.cmp_known(a, C(float(v)))
                elif len(m2) == 1 and m2[0][1] == 1 and c1 == -c2:
                    r = self.cmp_known(a, m2[0][0])
                else:
                    r = None
                if r is not None:
                    return s * r * (1 if c1 > 0 else -1)
        return None

    def sign_atom(self, a):
        r = self.cmp_known(a, C(0))
        return r

    def cmp_known(self, a, b):
        """-1, 0, 1 for a < b, a == b, a > b; None"""
        if a is b:
            return 0
        if self.lt_known(a, b):
            return -1
        if self.lt_known(b, a):
            return 1
        if self.lt_known(a, b) is False and self.lt_known(b, a) is False:
            return 0
        return None

    def lt_known(self, a, b):
        v = self.facts.get(T("lt", a, b))
        if v is not None:
            return v
        if self.facts.get(T("lt", b, a)):
            return False
        d = self.bounds_lt(a, b)
        if d is not None:
            return d
        return self.order_known(a, b)

    def alg_cmp(self, a, b):
        """('lt' known?, value): sign of a - b if it is determined"""
        x, y = rat(a), rat(b)
        if x is None or y is None:
            return None
        (n1, d1), (n2, d2) = x, y
        if d1 == d2:
            n, d = padd(n1, n2, -1), d1
        else:
            n, d = padd(pmul(n1, d2), pmul(n2, d1), -1), pmul(d1, d2)
        if not n:
            return 0
        sn, sd = self.sign_poly(n), self.sign_poly(d)
        if sn is None or sd is None or sd == 0:
            return None
        return sn * sd

    def alg_weak(self, a, b):
        """is a < b excluded, or is it implied, although the exact sign is not known?  (True / False / None)"""
        x, y = rat(a), rat(b)
        if x is None or y is None:
            return None
        n, d = padd(pmul(x[0], y[1]), pmul(y[0], x[1]), -1), pmul(x[1], y[1])
        if x[1] == y[1]:
            n, d = padd(x[0], y[0], -1), x[1]
        sd = self.sign_poly(d)
        if not sd or len(n) != 2:
            return None
        (m1, c1), (m2, c2) = sorted(n.items(), key=lambda z: len(z[0]), reverse=True)
        if len(m1) != 1 or m1[0][1] != 1:
            return None
        p = m1[0][0]
        if m2 == ():
            v = -c2 / c1
            q = C(int(v) if v.denominator == 1 else float(v))
        elif len(m2) == 1 and m2[0][1] == 1 and c1 == -c2:
            q = m2[0][0]
        else:
            return None
        up = (c1 > 0) == (sd > 0)
        # a < b  iff  p < q (up) or q < p
        return self.lt_known(p, q) if up else self.lt_known(q, p)


def arith(t):
    return isinstance(t, T) and t.op in ("op", "neg", "float")


def evaluate(t, env):
    """numeric value of a term (float), or None"""
    if not isinstance(t, T):
        return None
    if t in env:
        return env[t]
    if t.op == "c":
        return t.a[0] if isinstance(t.a[0], (int, float)) else None
    if t.op == "op":
        a, b = evaluate(t.a[1], env), evaluate(t.a[2], env)
        if a is None or b is None:
            return None
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "**": lambda: a ** b, "//": lambda: a // b, "%": lambda: a % b}[t.a[0]]()
        except (ZeroDivisionError, OverflowError, KeyError):
            return None
    if t.op == "neg":
        a = evaluate(t.a[0], env)
        return None if a is None else -a
    if t.op == "float":
        a = evaluate(t.a[0], env)
        return None if a is None else float(a)
    if t.op == "int":
        a = evaluate(t.a[0], env)
        return None if a is None else int(a)
    if t.op == "call" and isinstance(t.a[0], str) and t.a[0].startswith("math.") and len(t.a) == 2:
        a = evaluate(t.a[1], env)
        try:
            return None if a is None else getattr(math, t.a[0][5:])(a)
        except (ValueError, OverflowError, AttributeError):
            return None
    return None


def holds(f, env):
    """truth of a fact atom under an assignment, or None"""
    if f.op in ("lt", "eq") and len(f.a) == 2:
        a, b = evaluate(f.a[0], env), evaluate(f.a[1], env)
        if a is None or b is None:
            return None
        return a < b if f.op == "lt" else a == b
    return None


def witness(facts, a, b, syms, points):
    """an assignment under which all arithmetic facts hold and the terms differ; 'unknown' if facts cannot be evaluated.  points: iterable of value tuples"""
    fs = [(f, v) for f, v in facts if any(s in set(subterms(f)) for s in syms)]
    agree = 0
    for p in points:
        env = dict(zip(syms, p))
        ok = True
        for f, v in fs:
            h = holds(f, env)
            if h is None:
                return "unknown"
            if h != v:
                ok = False
                break
        if not ok:
            continue
        x, y = evaluate(a, env), evaluate(b, env)
        if x is None or y is None:
            return "unknown"
        if abs(x - y) > 1e-6 * max(1, abs(x), abs(y)):
            return env
        agree += 1
    return agree
