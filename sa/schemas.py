"""Config types as data: declared in the source of a client module, and as abstract values of a trace."""
from .terms import *

HEAD = '''
from dataclasses import dataclass, field
from enum import Enum
from typing import Any, Dict, List, Literal, Optional, Tuple, Union
import hyperstate
from hyperstate import Versioned
from hyperstate.schema.schema_checker import SchemaChecker
from hyperstate.schema.types import materialize_type

'''
TOOLS = '''
import sa_tools
from hyperstate.schema.schema_checker import schema_evolution_cli


def run_tool(cls, *words):
    sa_tools.argv(*words)
    try:
        schema_evolution_cli(cls)
    except SystemExit as e:
        if e.code:
            raise RuntimeError("the tool fails")


def write_schema(path, cls):
    run_tool(cls, "dump-schema", path)


def rewrite_config(path, cls, include_defaults=False):
    if include_defaults:
        run_tool(cls, "upgrade-config", "--include-defaults", path)
    else:
        run_tool(cls, "upgrade-config", path)


'''
ROOT = '''
@dataclass
class Cfg(Versioned):
%s

    @classmethod
    def version(clz) -> int:
        return 1

    @classmethod
    def minimum_version(clz) -> int:
        return 1

    @classmethod
    def upgrade_rules(clz):
        return {}
'''


class Ty:
    """op: int, str, bool, float; opt, list, dict, idict, tuple, union (args: types); lit (args: values);
    enum (name, ((variant, value), ...)); struct (name, ((field, type, default), ...)), default: None or source text"""
    def __init__(self, op, *args):
        self.op, self.args = op, args

    def key(self):
        return (self.op,) + tuple(a.key() if isinstance(a, Ty) else tuple((n, t.key(), d) for n, t, d in a) if self.op == "struct" and isinstance(a, tuple) else a for a in self.args)

    def __eq__(self, o):
        return isinstance(o, Ty) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def subs(self):
        return [t for _, t, _ in self.args[1]] if self.op == "struct" else [a for a in self.args if isinstance(a, Ty)]

    def src(self):
        if self.op in ("enum", "struct"):
            return self.args[0]
        if self.op == "lit":
            return "Literal[%s]" % ", ".join(map(repr, self.args))
        a = [x.src() for x in self.args]
        return {"opt": "Optional[%s]", "list": "List[%s]", "dict": "Dict[str, %s]", "idict": "Dict[int, %s]", "edict": "Dict[%s]",
                "tuple": "Tuple[%s]", "union": "Union[%s]"}[self.op] % ", ".join(a) if a else self.op

    def __repr__(self):
        if self.op == "enum":
            return "%s{%s}" % (self.args[0], ", ".join("%s=%r" % v for v in self.args[1]))
        if self.op == "struct":
            return "%s(%s)" % (self.args[0], ", ".join("%s: %r%s" % (n, t, "" if d is None else " = " + d) for n, t, d in self.args[1]))
        if self.op == "lit":
            return self.src()
        a = [repr(x) for x in self.args]
        return {"opt": "Optional[%s]", "list": "List[%s]", "dict": "Dict[str, %s]", "idict": "Dict[int, %s]", "edict": "Dict[%s]",
                "tuple": "Tuple[%s]", "union": "Union[%s]"}[self.op] % ", ".join(a) if a else self.op


INT, STR, BOOL, FLOAT = (Ty(x) for x in ("int", "str", "bool", "float"))


def opt(t):
    return Ty("opt", t)


def lst(t):
    return Ty("list", t)


def dct(t):
    return Ty("dict", t)


def idct(t):
    return Ty("idict", t)


def tup(*t):
    return Ty("tuple", *t)


def union(*t):
    return Ty("union", *t)


def lit(*v):
    return Ty("lit", *v)


def enum(name, **v):
    return Ty("enum", name, tuple(v.items()))


def st(name, *fields):
    """fields: (name, type) or (name, type, default text)"""
    return Ty("struct", name, tuple(f if len(f) == 3 else (f[0], f[1], None) for f in fields))


def field_src(n, t, d):
    if d is None:
        return "    %s: %s" % (n, t.src())
    if d.startswith(("[", "{")) or t.op == "struct" and "(" in d:
        return "    %s: %s = field(default_factory=lambda: %s)" % (n, t.src(), d)
    return "    %s: %s = %s" % (n, t.src(), d)


def declare(t, seen, out):
    for s in t.subs():
        declare(s, seen, out)
    if t.op not in ("enum", "struct"):
        return
    if t.args[0] in seen:
        assert seen[t.args[0]] == t, "two classes named " + t.args[0]
        return
    seen[t.args[0]] = t
    if t.op == "enum":
        out.append("class %s(Enum):\n%s\n" % (t.args[0], "\n".join("    %s = %r" % v for v in t.args[1])))
    else:
        out.append("@dataclass\nclass %s:\n%s\n" % (t.args[0], "\n".join(field_src(*f) for f in t.args[1]) or "    pass"))


def module(root, extra="", base=ROOT):
    """source of a module declaring the config class Cfg with the fields of a struct"""
    out, seen = [HEAD], {}
    for s in root.subs():
        declare(s, seen, out)
    out.append(base % ("\n".join(field_src(*f) for f in root.args[1]) or "    pass"))
    return "\n".join(out) + extra


class Values:
    """abstract values of a type: leaves are opaque, everything else is enumerated by the choices of the trace"""
    def __init__(self, run, mod, sizes=(0, 1)):
        self.run, self.mod, self.n, self.sizes = run, mod, 0, sizes

    def s(self, kind):
        self.n += 1
        return self.run.sym("%s%d" % (kind, self.n), {kind})

    def key(self, k):
        s = self.s(k)
        if k == "str":
            for r in ("!__name__", "!weak ref"):
                self.run.facts[T("eq", s, C(r))] = False
        return s

    def make(self, t):
        run, op = self.run, t.op
        if op in ("int", "float", "str", "bool"):
            return self.s(op)
        if op == "lit":
            return C(t.args[run.choose("literal", len(t.args))])
        if op == "enum":
            return run.getattr_(run.lookup(self.mod + "." + t.args[0]), t.args[1][run.choose("member", len(t.args[1]))][0])
        if op == "struct":
            return self.construct(t, run.lookup(self.mod + "." + t.args[0]))
        if op == "opt":
            return NONE if run.choose("none", 2) else self.make(t.args[0])
        if op == "list":
            return Seq("list", [self.make(t.args[0]) for _ in range(self.sizes[run.choose("length", len(self.sizes))])])
        if op in ("dict", "idict", "edict"):
            d = Dict()
            for _ in range(self.sizes[run.choose("size", len(self.sizes))]):
                k = self.key("str" if op == "dict" else "int") if op != "edict" else self.make(t.args[0])
                v = self.make(t.args[-1])
                d.entries[k] = (k, v)
            return d
        if op == "tuple":
            return Seq("tuple", [self.make(a) for a in t.args])
        if op == "union":
            return self.make(t.args[run.choose("alternative", len(t.args))])
        raise KeyError(op)

    def construct(self, t, cls):
        kw = {}
        for n, ft, d in t.args[1]:
            if d is not None and not self.run.choose("given", 2):
                continue
            kw[n] = self.make(ft)
        return self.run.construct(cls, [], kw)
