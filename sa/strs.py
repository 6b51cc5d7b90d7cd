"""String templates: lengths and character classes of concatenations with fixed-width parts."""
import re
from .terms import *


class StrMixin:
    def fixed_len(self, p):
        """exact length of a string term, or None"""
        p = self.bind.get(p, p)
        if is_str_c(p):
            return len(p.a[0])
        if p.op == "fmt" and is_str_c(p.a[1]):
            m = re.fullmatch(r"0(\d+)d?", p.a[1].a[0])
            if m:
                n = int(m.group(1))
                lo, hi = self.lo.get(p.a[0]), self.hi.get(p.a[0])
                if lo and lo[0] >= 0 and hi and (hi[0] < 10 ** n or (hi[0] == 10 ** n and hi[1])):
                    return n
            return None
        if p.op == "str" and p.a[0].op == "uuid":
            return 36
        if p.op == "attr" and p.a[0].op == "uuid" and p.a[1] == "hex":
            return 32
        if p.op == "strop" and p.a[0] == "sub":
            return p.a[3].a[0] - p.a[2].a[0]
        if p.op == "cat":
            ls = [self.fixed_len(x) for x in p.a]
            return None if None in ls else sum(ls)
        return None

    def numeric_text(self, p):
        """text of a number"""
        if p.op == "numtext":
            return True
        if p.op == "str":
            ks = self.kinds(p.a[0])
            return ks is not None and ks <= {"int", "float"}
        return False

    def min_len(self, p):
        if p.op == "cat":
            return sum(self.min_len(x) for x in p.a)
        n = self.fixed_len(p)
        return n if n is not None else 0

    def all_digits(self, p):
        """True / False / None: does the string consist of decimal digits only?"""
        if is_str_c(p):
            return p.a[0].isdigit() if p.a[0] else None
        if p.op == "fmt":
            return True if self.fixed_len(p) is not None else None
        if p.op == "strop" and p.a[0] == "sub":
            return True if self.all_digits(p.a[1]) else None
        if p.op == "cat":
            r = [self.all_digits(x) for x in p.a]
            if False in r:
                return False
            return None if None in r else True
        return None

    def sub(self, p, i, j):
        if is_str_c(p):
            return C(p.a[0][i:j])
        n = self.fixed_len(p)
        if i == 0 and j == n:
            return p
        if p.op == "strop" and p.a[0] == "sub":
            return T("strop", "sub", p.a[1], C(p.a[2].a[0] + i), C(p.a[2].a[0] + j))
        return T("strop", "sub", p, C(i), C(j))

    def take(self, parts, n, right, drop):
        """First/last n characters of a concatenation, or the rest without them; None if not known."""
        parts = list(parts)
        seq = list(reversed(parts)) if right else parts
        got, left = [], n
        for k, p in enumerate(seq):
            if left == 0:
                rest = seq[k:]
                break
            L = self.fixed_len(p)
            if L is None:
                return None
            if L <= left:
                got.append(p)
                left -= L
                continue
            if right:
                got.append(self.sub(p, L - left, L))
                rest = [self.sub(p, 0, L - left)] + seq[k + 1:]
            else:
                got.append(self.sub(p, 0, left))
                rest = [self.sub(p, left, L)] + seq[k + 1:]
            left = 0
            break
        else:
            rest = []
        out = rest if drop else got
        return list(reversed(out)) if right else out

    def str_slice(self, c, kf):
        lo, hi, st = kf.a
        fallback = T("strop", "slice", c, lo, hi, st)
        self.kindmap.setdefault(fallback, frozenset(["str"]))
        if st is not NONE or not (is_c(lo) and is_c(hi)):
            return fallback
        lo, hi = lo.a[0], hi.a[0]
        parts = list(c.a) if c.op == "cat" else [c]
        if lo is not None and lo < 0:
            if hi is not None and (hi >= 0 or hi <= lo):
                return fallback if hi >= 0 else C("")
            r = self.take(parts, -lo, True, False)
            if r is not None and hi is not None:
                r = self.take(r, -hi, True, True)
        else:
            r = parts if not lo else self.take(parts, lo, False, True)
            if r is not None and hi is not None:
                r = self.take(r, -hi, True, True) if hi < 0 else self.take(r, max(0, hi - (lo or 0)), False, False)
        return fallback if r is None else self.cat(r)

    def str_int(self, v):
        """int() of a string template: a term, 'error', or None if not known"""
        if v.op == "fmt" and is_str_c(v.a[1]) and re.fullmatch(r"0?\d*d", v.a[1].a[0]):
            return v.a[0]
        if v.op == "str" and self.kinds(v.a[0]) == {"int"}:
            return v.a[0]
        if v.op == "cat":
            for i, p in enumerate(v.a):
                if is_str_c(p):
                    s = p.a[0]
                    if i == 0:
                        s = s.lstrip().lstrip("+-")
                    if i == len(v.a) - 1:
                        s = s.rstrip()
                    if re.search(r"[^0-9_]", s):
                        return "error"
            if len(v.a) == 2 and is_str_c(v.a[0]) and set(v.a[0].a[0]) <= {"0"}:
                return self.str_int(v.a[1])
        return None

    def str_lt(self, a, b):
        """order of two strings of the same template: decided by the first differing part"""
        pa = list(a.a) if a.op == "cat" else [a]
        pb = list(b.a) if b.op == "cat" else [b]
        i = 0
        while i < len(pa) and i < len(pb) and pa[i] is pb[i]:
            i += 1
        if i >= len(pa) or i >= len(pb):
            return len(pa) < len(pb) if i >= len(pa) else False
        x, y = pa[i], pb[i]
        if is_str_c(x) and is_str_c(y):
            s, t = x.a[0], y.a[0]
            k = 0
            while k < len(s) and k < len(t) and s[k] == t[k]:
                k += 1
            if k < len(s) and k < len(t):
                return s[k] < t[k]
            return None
        lx, ly = self.fixed_len(x), self.fixed_len(y)
        if x.op == "fmt" and y.op == "fmt" and lx is not None and lx == ly:
            if self.eq(x.a[0], y.a[0]):
                ra, rb = self.cat(pa[i + 1:]), self.cat(pb[i + 1:])
                return self.lt(ra, rb)
            return self.lt(x.a[0], y.a[0])
        return None
