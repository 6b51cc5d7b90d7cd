"""Enumeration of config types: annotations, abstract values of them, and the client module declaring the classes."""
from .terms import *

HEAD = '''
from dataclasses import dataclass, field
from enum import Enum
from typing import Any, Dict, List, Literal, Optional, Tuple, Union
import hyperstate
from hyperstate import Versioned


class Color(Enum):
    RED = "red"
    BLUE = "blue"


class Level(Enum):
    LOW = 1
    HIGH = 2


class Mode(str, Enum):
    FAST = "fast"
    SLOW = "slow"


@dataclass
class Leaf:
    a: int
    b: str = "x"
    c: Optional[float] = None


@dataclass
class Other:
    z: float
    leaf: Leaf


@dataclass
class Vers(Versioned):
    q: int
    r: str = "r"

    @classmethod
    def version(clz) -> int:
        return 3

    @classmethod
    def minimum_version(clz) -> int:
        return 0

    @classmethod
    def upgrade_rules(clz):
        return {}
'''

HEAD += "\n\n@dataclass\nclass Big:\n" + "".join("    f%d: %s%s\n" % (i, ["int", "str", "float", "Optional[bool]"][i % 4], "" if i < 7 else " = " + ['3', '"t"', '0.5', 'None'][i % 4]) for i in range(14))
HEAD += "\n\nclass Many(Enum):\n" + "".join("    V%d = %r\n" % (i, "value%d" % i) for i in range(12))
HEAD += "".join("\n\n@dataclass\nclass %s:\n    n%d: %s\n    k%d: int = %d\n" % ("Chain" if i == 7 else "Chain%d" % i, i, "Leaf" if i == 0 else "Chain%d" % (i - 1), i, i) for i in range(8))
MANYLIT = ["w%d" % i for i in range(12)]

LEAVES = ["int", "float", "str", "bool", "Color", "Level", "Mode", "Leaf", "Vers", "Lit", "Other"]


class Ty:
    """op: a leaf name, or opt / list / dict / idict / tuple / union with arguments"""
    def __init__(self, op, *args):
        self.op, self.args = op, args

    def src(self):
        a = [x.src() for x in self.args]
        return {"opt": "Optional[%s]", "list": "List[%s]", "dict": "Dict[str, %s]", "idict": "Dict[int, %s]",
                "tuple": "Tuple[%s]", "union": "Union[%s]"}[self.op] % ", ".join(a) if a else {"Lit": 'Literal["p", "q"]', "ManyLit": "Literal%r" % MANYLIT}.get(self.op, self.op)

    def __repr__(self):
        return self.src()

    def depth(self):
        return 1 + max([a.depth() for a in self.args] or [0])


def types(depth, leaves=LEAVES):
    """all types of at most this depth (tuples pair the type with int; unions are listed separately)"""
    cur = [Ty(x) for x in leaves]
    out = list(cur)
    for _ in range(depth - 1):
        nxt = []
        for t in cur:
            if t.op != "opt":
                nxt.append(Ty("opt", t))
            nxt += [Ty("list", t), Ty("dict", t), Ty("tuple", t, Ty("int"))]
        out += nxt
        cur = nxt
    return out


UNIONS = [Ty("union", Ty("list", Ty("int")), Ty("dict", Ty("int"))), Ty("union", Ty("Leaf"), Ty("Other")),
          Ty("union", Ty("list", Ty("Leaf")), Ty("dict", Ty("str"))), Ty("tuple", Ty("str"), Ty("float"), Ty("bool")),
          Ty("tuple", Ty("int")), Ty("idict", Ty("int")), Ty("idict", Ty("Leaf")), Ty("list", Ty("union", Ty("Leaf"), Ty("Other"))),
          Ty("union", Ty("Leaf"), Ty("list", Ty("Leaf")))]


def module(ts, extra=""):
    """source of a client module with classes C0, C1, ... (one field `x`) and N0, N1, ... (nesting them)"""
    out = [HEAD]
    for i, t in enumerate(ts):
        out.append("@dataclass\nclass C%d:\n    x: %s\n\n" % (i, t.src()))
        out.append("@dataclass\nclass N%d:\n    inner: C%d\n    y: int = 5\n\n" % (i, i))
    return "\n".join(out) + extra


class Gen:
    """abstract values of a type"""
    def __init__(self, run, mod, sizes=(0, 1, 2)):
        self.run, self.mod, self.n, self.sizes, self.fixed = run, mod, 0, sizes, False

    def s(self, kind):
        self.n += 1
        return self.run.sym("%s%d" % (kind, self.n), {kind})

    def pick(self, what, n):
        """one of n alternatives; elements after the first of a container take the last one"""
        return n - 1 if self.fixed else self.run.choose(what, n)

    def elements(self, n, mk):
        out = []
        for i in range(n):
            old, self.fixed = self.fixed, self.fixed or i > 0
            out.append(mk())
            self.fixed = old
        return out

    def key(self, k):
        s = self.s(k)
        if k == "str":
            for r in ("!__name__", "!weak ref"):
                self.run.facts[T("eq", s, C(r))] = False
        return s

    def make(self, t):
        run, op = self.run, t.op
        if op in ("int", "float", "str", "bool"):
            return self.s(op)
        if op == "Lit":
            return C("pq"[self.pick("literal", 2)])
        if op in ("Color", "Level", "Mode"):
            c = run.lookup(self.mod + "." + op)
            ms = {"Color": ("RED", "BLUE"), "Level": ("LOW", "HIGH"), "Mode": ("FAST", "SLOW")}[op]
            return run.getattr_(c, ms[self.pick("member", 2)])
        if op == "Leaf":
            c = NONE if self.pick("c is None", 2) else self.s("float")
            return run.construct(run.lookup(self.mod + ".Leaf"), [self.s("int"), self.s("str"), c], {})
        if op == "Other":
            return run.construct(run.lookup(self.mod + ".Other"), [self.s("float"), self.make(Ty("Leaf"))], {})
        if op == "ManyLit":
            return C(MANYLIT[self.pick("literal", len(MANYLIT))])
        if op == "Many":
            return run.getattr_(run.lookup(self.mod + ".Many"), "V%d" % self.pick("member", 12))
        if op == "Big":
            return run.construct(run.lookup(self.mod + ".Big"), [self.s(["int", "str", "float", "bool"][i % 4]) for i in range(14)], {})
        if op == "Chain":
            v = self.make(Ty("Leaf"))
            for i in range(8):
                v = run.construct(run.lookup(self.mod + (".Chain" if i == 7 else ".Chain%d" % i)), [v, self.s("int")], {})
            return v
        if op == "Vers":
            return run.construct(run.lookup(self.mod + ".Vers"), [self.s("int"), self.s("str")], {})
        if op == "opt":
            return NONE if self.pick("none", 2) else self.make(t.args[0])
        if op == "list":
            n = self.sizes[self.pick("length", len(self.sizes))]
            return Seq("list", self.elements(n, lambda: self.make(t.args[0])))
        if op in ("dict", "idict"):
            n = self.sizes[self.pick("size", len(self.sizes))]
            d = Dict()
            for v in self.elements(n, lambda: self.make(t.args[0])):
                k = self.key("str" if op == "dict" else "int")
                for o in list(d.entries):
                    a, b = (k, o) if show(k) < show(o) else (o, k)
                    run.facts[T("eq", a, b)] = False
                d.entries[k] = (k, v)
            return d
        if op == "tuple":
            return Seq("tuple", [self.make(a) for a in t.args])
        if op == "union":
            return self.make(t.args[self.pick("alternative", len(t.args))])
        raise KeyError(op)


def named(src):
    """the type with this annotation: List[x] or Dict[str, x]"""
    if src.startswith("List["):
        return Ty("list", Ty(src[5:-1]))
    return Ty("dict", Ty(src[len("Dict[str, "):-1]))
