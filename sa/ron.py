"""Constant RON texts (override values, small documents): a parser producing abstract document values.  Raises ValueError on a malformed text."""
import re
from .terms import *

TOK = re.compile(r'\s*(?:(?P<num>[+-]?\d+(?:\.\d*)?(?:[eE][+-]?\d+)?)(?![\w])|(?P<str>"(?:[^"\\]|\\.)*")|(?P<id>[A-Za-z_]\w*)|(?P<p>[\[\](){},:]))')


def parse(text):
    toks, i = [], 0
    text = text.rstrip()
    while i < len(text):
        m = TOK.match(text, i)
        if not m or m.end() == i:
            raise ValueError("Fail to parse: " + text)
        toks.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    v, n = value(toks, 0)
    if n != len(toks):
        raise ValueError("Fail to parse: " + text)
    return v


def at(toks, i):
    return toks[i] if i < len(toks) else (None, None)


def value(toks, i):
    k, s = at(toks, i)
    if k == "num":
        return C(float(s) if re.search(r"[.eE]", s) else int(s)), i + 1
    if k == "str":
        return C(s[1:-1].replace('\\"', '"').replace("\\\\", "\\")), i + 1
    if k == "id":
        if s in ("true", "false"):
            return C(s == "true"), i + 1
        if s == "None":
            return NONE, i + 1
        if at(toks, i + 1) == ("p", "("):
            v, j = value(toks, i + 1)
            if is_c(v):
                v = Dict()
            if not isinstance(v, Dict):
                raise ValueError("tuple struct")
            return Nt(C(s), v), j
        return Nt(C(s), Dict()), i + 1
    if (k, s) == ("p", "["):
        out, i = elements(toks, i + 1, "]")
        return Seq("list", out), i
    if (k, s) == ("p", "("):
        if at(toks, i + 1) == ("p", ")"):
            return NONE, i + 2
        if at(toks, i + 1)[0] == "id" and at(toks, i + 2) == ("p", ":"):
            return mapping(toks, i + 1, ")", True)
        out, i = elements(toks, i + 1, ")")
        return Seq("tuple", out), i
    if (k, s) == ("p", "{"):
        return mapping(toks, i + 1, "}", False)
    raise ValueError("Fail to parse")


def elements(toks, i, end):
    out = []
    while at(toks, i) != ("p", end):
        v, i = value(toks, i)
        out.append(v)
        if at(toks, i) == ("p", ","):
            i += 1
        elif at(toks, i) != ("p", end):
            raise ValueError("Fail to parse")
    return out, i + 1


def mapping(toks, i, end, fields):
    d = Dict()
    while at(toks, i) != ("p", end):
        if fields:
            k, i = C(at(toks, i)[1]), i + 1
        else:
            k, i = value(toks, i)
        if at(toks, i) != ("p", ":") or not is_c(k):
            raise ValueError("Fail to parse")
        v, i = value(toks, i + 1)
        d.entries[k] = (k, v)
        if at(toks, i) == ("p", ","):
            i += 1
        elif at(toks, i) != ("p", end):
            raise ValueError("Fail to parse")
    return d, i + 1
