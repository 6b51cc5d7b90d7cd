"""Path-sensitive abstract interpreter over the syntax tree of the analysed package.

Nothing of the package is imported or executed.  Values are abstract: interned provenance terms
with a kind set (terms.py), and abstract heap objects.  Undecided conditions split the trace
(trace partitioning); loops over unknown collections are summarised by a generic iteration whose
loop-carried variables are havocked; recursion is cut into opaque terms (induction).  No solver.
"""
import os
import ast
import builtins as _bi
from .terms import *
from .repo import AnalysisBroken, ClassInfo, Module, base_of


class Raise(Exception):
    def __init__(self, value, loc=None):
        self.value, self.loc = value, loc


class Ret(Exception):
    def __init__(self, value):
        self.value = value


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Stop(Exception):
    """This trace ends: infeasible, beyond the bound, or not representable (imprecise)."""
    def __init__(self, why, imprecise=False):
        self.why, self.imprecise = why, imprecise


class ProbeFork(Exception):
    pass


class Ev:
    __slots__ = ("op", "args", "raw", "loc", "nf", "stack", "kw")

    def __init__(self, op, args, raw, loc, nf, stack, kw=None):
        self.op, self.args, self.raw, self.loc, self.nf, self.stack, self.kw = op, args, raw, loc, nf, stack, kw or {}

    def __repr__(self):
        return "%s(%s)@%s" % (self.op, ", ".join(show(a) for a in self.args), self.where())

    def where(self):
        p, l, q = self.loc
        return "%s:%s (%s)" % (p, l, q)


class Env:
    __slots__ = ("vars", "parent", "module", "nonlocals", "globals", "cls", "func", "yields", "self_")

    def __init__(self, module, parent=None, cls=None, func=None):
        self.vars, self.parent, self.module = {}, parent, module
        self.nonlocals, self.globals, self.cls, self.func = set(), set(), cls, func
        self.yields = None
        self.self_ = None


BASE_KINDS = frozenset("none bool int float str bytes list tuple nt0 nt dict set enum dc class func path "
                       "ndarray tensor obj".split())
DOC_KINDS = frozenset("none bool int float str list tuple dict".split())

KIND_OF_EXT = {
    "builtins.dict": {"dict"}, "builtins.list": {"list"}, "builtins.tuple": {"tuple", "nt0", "nt"},
    "builtins.int": {"int", "bool"}, "builtins.bool": {"bool"}, "builtins.float": {"float"},
    "builtins.str": {"str"}, "builtins.bytes": {"bytes"}, "builtins.NoneType": {"none"},
    "builtins.set": {"set"}, "builtins.frozenset": {"set"}, "builtins.type": {"class"},
    "pathlib.Path": {"path"}, "enum.Enum": {"enum"}, "numpy.ndarray": {"ndarray"},
    "torch.Tensor": {"tensor"}, "typing.Mapping": {"dict"}, "collections.abc.Mapping": {"dict"},
    "collections.abc.MutableMapping": {"dict"}, "typing.Dict": {"dict"}, "typing.List": {"list"},
    "typing.Tuple": {"tuple", "nt0", "nt"}, "numbers.Real": {"int", "bool", "float"},
    "numbers.Number": {"int", "bool", "float"}, "numbers.Integral": {"int", "bool"},
    "collections.abc.Sequence": {"list", "tuple", "nt0", "nt", "str", "bytes"},
    "typing.Sequence": {"list", "tuple", "nt0", "nt", "str", "bytes"},
    "pathlib.PurePath": {"path"}, "os.PathLike": {"path"},
}

OP_KIND = {"cat": "str", "len": "int", "P": "path", "join": "str", "repr": "str", "str": "str", "fmt": "str",
           "int": "int", "float": "float", "before": "str", "after": "str", "slice_str": "str",
           "basename": "str", "parent": "str", "idx": "int", "ty": "class", "type": "class",
           "strop": "str", "numtext": "str", "bytes": "bytes", "new": "obj", "tmpdir": "str", "file": "obj", "fn": "func"}


class Opts:
    def __init__(self, **kw):
        self.rec_limit = {}          # qual -> nested activations before the call is cut
        self.rec_default = 14
        self.opaque = set()          # quals never inlined
        self.loop = ("0", "1", "n")
        self.while_bound = 2
        self.max_paths = 6000
        self.max_steps = 60000
        self.kind_hint = None        # fn(run, term) -> kinds | None
        self.models = {}             # dotted -> fn(run, args, kwargs, node): overrides
        self.pure = set()
        self.globals = {}
        self.argv = None             # words of the command line (terms)
        self.faults = True     # file-system calls may fail where a handler can see it
        for k, v in kw.items():
            assert hasattr(self, k), k
            setattr(self, k, v)


class Path:
    def __init__(self, run, kind, value):
        self.run, self.kind, self.value = run, kind, value

    @property
    def returned(self):
        return self.kind == "return"

    @property
    def raised(self):
        return self.kind == "raise"


class Engine:
    def __init__(self, repo, opts=None):
        self.repo = repo
        self.opts = opts or Opts()
        self.stats = {"paths": 0, "infeasible": 0, "imprecise": 0, "bounded": 0, "truncated": 0}
        self.imprecise_why = {}
        self.functions = set()

    def explore(self, entry, on_path=None, expired=None):
        """Run `entry(run)` over all traces.  Returns the list of Path records."""
        prefix = []
        out = []
        n = 0
        while True:
            from .vm import Run
            run = Run(self, prefix)
            try:
                v = entry(run)
                p = Path(run, "return", v)
            except Raise as r:
                p = Path(run, "raise", r.value)
                p.loc = r.loc
            except Stop as s:
                p = None
                if s.imprecise:
                    self.stats["imprecise"] += 1
                    self.imprecise_why[s.why] = self.imprecise_why.get(s.why, 0) + 1
                elif s.why.startswith("bound"):
                    self.stats["bounded"] += 1
                else:
                    self.stats["infeasible"] += 1
            except RecursionError:
                p = None
                self.stats["imprecise"] += 1
                self.imprecise_why["recursion"] = self.imprecise_why.get("recursion", 0) + 1
            except (Ret, Brk, Cnt):
                p = None
                self.stats["imprecise"] += 1
            except (TypeError, AttributeError, ValueError, KeyError, IndexError) as e:
                # an operation the interpreter of the analysis does not represent
                if os.environ.get("VERIF_DEBUG"):
                    raise
                import traceback
                p = None
                self.stats["imprecise"] += 1
                at = traceback.extract_tb(e.__traceback__)[-1]
                w = "analysis: %s at %s:%d" % (type(e).__name__, os.path.basename(at.filename), at.lineno)
                self.imprecise_why[w] = self.imprecise_why.get(w, 0) + 1
            n += 1
            if p is not None:
                self.stats["paths"] += 1
                out.append(p)
                if on_path:
                    on_path(p)
            tr = run.trace
            while tr and tr[-1][0] + 1 >= tr[-1][1]:
                tr.pop()
            if not tr:
                break
            prefix = [c for c, _ in tr[:-1]] + [tr[-1][0] + 1]
            if n >= self.opts.max_paths or expired is not None and expired():
                self.stats["truncated"] += 1
                break
        return out


# ------------------------------------------------------------------------------------------

def ext_exc_class(name):
    n = name.rsplit(".", 1)[-1]
    c = getattr(_bi, n, None)
    return c if isinstance(c, type) and issubclass(c, BaseException) else None


EXC_PARENT = {"shutil.Error": "OSError", "json.JSONDecodeError": "ValueError", "uuid.Error": "Exception",
              "builtins.ModuleNotFoundError": "ImportError"}


def exc_sub(name, of):
    """Is external exception `name` a subclass of external class `of`?"""
    a, b = ext_exc_class(EXC_PARENT.get(name, name)), ext_exc_class(of)
    if name.rsplit(".", 1)[-1] == of.rsplit(".", 1)[-1]:
        return True
    if a is not None and b is not None:
        return issubclass(a, b)
    if b in (Exception, BaseException):
        return True
    return False


class RunBase:
    def __init__(self, eng, prefix):
        self.eng, self.repo, self.opts = eng, eng.repo, eng.opts
        self.prefix, self.trace = list(prefix), []
        self.facts, self.kindmap, self.bind = {}, {}, {}
        self.fact_log = []
        self.lo, self.hi = {}, {}
        self.heap = {}
        self.events = []
        self.counters = {}
        self.module_env, self.classes = {}, {}
        self.dyn_classes = []
        self.stack = []
        self.try_stack = []
        self.steps = 0
        self.cur = ("?", 0, "?")
        self.fs_epoch = 0
        self.notes = []
        self.active = {}
        self.idx_of = {}
        self.fn_ids = {}
        self.tags = {}
        self.fs_init()

    # -------------------------------------------------------------- bookkeeping
    def fresh(self, what):
        n = self.counters.get(what, 0) + 1
        self.counters[what] = n
        return n

    def sym(self, name, kinds=None):
        t = T("sym", name)
        if kinds is not None and t not in self.kindmap:
            self.kindmap[t] = frozenset(kinds if not isinstance(kinds, str) else kinds.split())
        return t

    def choose(self, label, n):
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            c = 0
        self.trace.append([c, n])
        return c

    def probe(self, f):
        """Value of a query that must not fork: True / False, or None if the trace does not decide it."""
        old = self.choose

        def no(label, n):
            raise ProbeFork()
        self.choose = no
        sv = (dict(self.facts), dict(self.kindmap), dict(self.bind), len(self.fact_log), len(self.events))
        try:
            return f()
        except ProbeFork:
            self.facts, self.kindmap, self.bind = sv[0], sv[1], sv[2]
            del self.fact_log[sv[3]:]
            del self.events[sv[4]:]
            return None
        finally:
            del self.choose

    def imprecise(self, why):
        raise Stop(why + " at %s:%s" % (self.cur[0].rsplit("/", 1)[-1], self.cur[1]), True)

    def event(self, op, *raw, **kw):
        e = Ev(op, tuple(self.freeze(x) for x in raw), raw, self.cur, len(self.fact_log),
               tuple(f for f, _ in self.stack), {k: self.freeze(v) for k, v in kw.items()})
        self.events.append(e)
        return e

    def raise_(self, name, *args):
        raise Raise(Exc("builtins." + name if "." not in name else name, list(args)), self.cur)

    # -------------------------------------------------------------- facts
    def assume(self, atom, val):
        self.facts[atom] = val
        self.fact_log.append((atom, val))

    def decide(self, atom, label=None):
        v = self.facts.get(atom)
        if v is None:
            v = self.choose(label or atom, 2) == 0
            self.assume(atom, v)
        return v

    def kinds(self, v):
        """frozenset of kinds, or None if nothing is known."""
        v = self.deref(v)
        if isinstance(v, T):
            if v.op == "c":
                return frozenset([kind_of_const(v.a[0])])
            k = self.kindmap.get(v)
            if k is not None:
                return k
            b = self.bind.get(v)
            if b is not None and b.op == "c":
                return frozenset([kind_of_const(b.a[0])])
            if v.op in OP_KIND:
                return frozenset([OP_KIND[v.op]])
            if v.op in ("tuple", "list", "dict", "set"):
                return frozenset([v.op])
            if v.op == "enum":
                return frozenset(["enum"])
            if v.op in ("ext", "class"):
                return None
            k = self.hint(v)
            if k is not None:
                k = frozenset(k)
                self.kindmap[v] = k
                return k
            return None
        if isinstance(v, Seq):
            return frozenset([{"gen": "obj"}.get(v.kind, v.kind)])
        if isinstance(v, Dict):
            return frozenset(["dict"])
        if isinstance(v, Nt):
            n = not v.d.entries and v.d.base is None and not v.d.stars
            return frozenset(["nt0" if n else "nt"])
        if isinstance(v, Inst):
            if v.cls is None:
                return frozenset(["obj"])
            if self.is_enum_class(v.cls):
                return frozenset(["enum"])
            return frozenset(["inst:" + v.cls.qual])
        if isinstance(v, ClassObj):
            return frozenset(["class"])
        if isinstance(v, (Func, Bound, Native, Partial)):
            return frozenset(["func"])
        return frozenset(["obj"])

    def hint(self, t):
        if self.opts.kind_hint:
            k = self.opts.kind_hint(self, t)
            if k is not None:
                return k
        if t.op == "attr" and isinstance(t.a[0], T):
            ks = self.kindmap.get(t.a[0])
            if ks is not None and len(ks) == 1:
                k = next(iter(ks))
                if k.startswith("inst:"):
                    ci = self.class_by_qual(k[5:])
                    if ci is not None:
                        return self.ann_kinds_of_field(ci, t.a[1])
        if t.op == "item" and isinstance(t.a[0], T):
            e = self.tags.get(("elem", t.a[0]))
            if e is not None:
                return e
            ks = self.elem_ann(t.a[0])
            if ks is not None:
                return ks
        return None

    def ann_node(self, t):
        """(annotation node, module) of an attribute term of a known class."""
        if t.op != "attr" or not isinstance(t.a[0], T):
            return None
        ks = self.kinds(t.a[0])
        if ks is None or len(ks) != 1:
            return None
        k = next(iter(ks))
        if not k.startswith("inst:"):
            return None
        co = self.class_by_qual(k[5:])
        if co is None:
            return None
        for c in self.mro(co):
            if isinstance(c, ClassObj):
                for n, ann, _ in c.info.ann:
                    if n == t.a[1]:
                        return ann, c.info.module
        return None

    def elem_ann(self, t):
        r = self.ann_node(t)
        if r is None:
            return None
        ann, mod = r
        if isinstance(ann, ast.Subscript):
            base = ast.unparse(ann.value).rsplit(".", 1)[-1]
            sl = ann.slice
            if isinstance(sl, ast.Index):
                sl = sl.value
            if base in ("List", "Sequence", "list", "Set") and not isinstance(sl, ast.Tuple):
                return self.ann_kinds(sl, mod)
            if base in ("Dict", "dict") and isinstance(sl, ast.Tuple):
                return self.ann_kinds(sl.elts[1], mod)
        return None

    def ann_kinds_of_field(self, co, name):
        for c in self.mro(co):
            if isinstance(c, ClassObj):
                for n, ann, _ in c.info.ann:
                    if n == name:
                        return self.ann_kinds(ann, c.info.module)
        return None

    def ann_kinds(self, ann, mod, depth=0):
        if depth > 4:
            return None
        if isinstance(ann, ast.Constant):
            if ann.value is None:
                return {"none"}
            if isinstance(ann.value, str):
                try:
                    return self.ann_kinds(ast.parse(ann.value, mode="eval").body, mod, depth + 1)
                except SyntaxError:
                    return None
            return None
        if isinstance(ann, ast.Subscript):
            base = ast.unparse(ann.value).rsplit(".", 1)[-1]
            sl = ann.slice
            if isinstance(sl, ast.Index):
                sl = sl.value
            if base == "Optional":
                k = self.ann_kinds(sl, mod, depth + 1)
                return None if k is None else set(k) | {"none"}
            if base == "Union":
                out = set()
                for e in (sl.elts if isinstance(sl, ast.Tuple) else [sl]):
                    k = self.ann_kinds(e, mod, depth + 1)
                    if k is None:
                        return None
                    out |= set(k)
                return out
            if base in ("List", "list"):
                return {"list"}
            if base in ("Dict", "dict"):
                return {"dict"}
            if base in ("Tuple", "tuple"):
                return {"tuple"}
            if base in ("Set", "set"):
                return {"set"}
            if base in ("Type", "type"):
                return {"class"}
            return None
        if isinstance(ann, ast.Name):
            basic = {"int": {"int"}, "float": {"float", "int"}, "str": {"str"}, "bool": {"bool"}, "Path": {"path"},
                     "bytes": {"bytes"}, "dict": {"dict"}, "list": {"list"}}
            d = mod.defs.get(ann.id)
            if d is None:
                return basic.get(ann.id)
            if d[0] == "class":
                return {"inst:" + d[1].qual}
            if d[0] == "expr":
                return self.ann_kinds(d[1], mod, depth + 1)
            if d[0] == "import":
                r = self.repo.resolve(d[1], d[2])
                if r[0] == "class":
                    return {"inst:" + r[1].qual}
                if r[0] == "expr":
                    return self.ann_kinds(r[2], r[1], depth + 1)
                if r[0] == "ext" and r[1] == "pathlib.Path":
                    return {"path"}
            return None
        if isinstance(ann, ast.Attribute) and isinstance(ann.value, ast.Name):
            d = mod.defs.get(ann.value.id)
            if d and d[0] == "import":
                r = self.repo.resolve(d[1], d[2])
                if r[0] == "module":
                    return self.ann_kinds(ast.Name(id=ann.attr, ctx=ast.Load()), r[1], depth + 1)
        return None

    def class_by_qual(self, qual):
        for co in self.dyn_classes:
            if co.qual == qual:
                return co
        mod, _, name = qual.rpartition(".")
        m = self.repo.modules.get(mod)
        if m is None:
            return None
        d = m.defs.get(name)
        if d and d[0] == "class":
            return self.classobj(d[1])
        return None

    def refine(self, t, ks):
        ks = frozenset(ks)
        if not ks:
            raise Stop("infeasible kinds")
        self.kindmap[t] = ks
        self.fact_log.append((T("kinds", t, tuple(sorted(ks))), True))

    def split(self, t, yes, label="kind"):
        """Fork on kinds(t) & yes.  Returns True / False."""
        ks = self.kinds(t)
        if ks is None:
            ks = BASE_KINDS
        y, n = ks & frozenset(yes), ks - frozenset(yes)
        if not y:
            return False
        if not n:
            if isinstance(t, T) and t.op != "c" and self.kindmap.get(t) is None:
                self.kindmap[t] = ks
            return True
        if self.choose(label, 2) == 0:
            self.refine(t, y)
            return True
        self.refine(t, n)
        return False

    def deref(self, v):
        if isinstance(v, T):
            h = self.heap.get(v)
            if h is not None:
                return h
        return v

    def heapify(self, v):
        """Materialise the heap object behind a term of known container kind."""
        v = self.deref(v)
        if not isinstance(v, T):
            return v
        ks = self.kinds(v)
        if ks is None or len(ks) != 1:
            return v
        k = next(iter(ks))
        if k == "dict":
            o = Dict(base=v)
        elif k in ("list", "set"):
            o = Seq(k, [Star(None)], base=v)
        elif k.startswith("inst:"):
            co = self.class_by_qual(k[5:])
            if co is None:
                return v
            o = Inst(co, base=v)
        else:
            return v
        self.heap[v] = o
        return o

    # -------------------------------------------------------------- freezing
    def freeze(self, v, seen=None):
        if isinstance(v, T):
            h = self.heap.get(v)
            if h is None:
                return v
            if isinstance(h, Dict) and not h.entries and not h.stars and not h.cleared:
                return v
            if isinstance(h, Inst) and not h.d.entries:
                return v
            if isinstance(h, Seq) and len(h.items) == 1 and isinstance(h.items[0], Star) and h.items[0].value is None:
                return v
            v = h
        seen = seen or ()
        if any(v is s for s in seen):
            return T("cycle")
        seen = seen + (v,)
        f = lambda x: self.freeze(x, seen)
        if isinstance(v, Seq):
            return T(v.kind, *[T("star", f(i.value) if i.value is not None else v.base) if isinstance(i, Star) else f(i)
                               for i in v.items])
        if isinstance(v, Dict):
            es = tuple(T("kv", f(k), T("tomb") if x is Dict.TOMB else f(x)) for k, x in v.entries.values())
            st = tuple(T("star", T("kv", f(k), f(x))) for k, x in v.stars)
            return T("dict", v.base if v.base is not None else NONE, *(es + st))
        if isinstance(v, Inst):
            if v.cls is not None and self.is_enum_class(v.cls) and v.d.entries.get(C("name")):
                return T("enum", v.cls.qual, cval(v.d.entries[C("name")][1]))
            if v.base is not None and not v.d.entries:
                return v.base
            return T("inst", v.cls.qual if v.cls else "?", v.base if v.base is not None else NONE,
                     *[T("kv", k, T("tomb") if x[1] is Dict.TOMB else f(x[1])) for k, x in v.d.entries.items()])
        if isinstance(v, Nt):
            return T("nt", f(v.name), f(v.d))
        if isinstance(v, ClassObj):
            return T("class", v.qual)
        if isinstance(v, Func):
            cl = ()
            return T("fn", v.qual, id(v.node) if v.name == "<lambda>" else 0, *cl)
        if isinstance(v, Bound):
            return T("bound", f(v.func), f(v.self_))
        if isinstance(v, ModuleObj):
            return T("module", v.module.name)
        if isinstance(v, Exc):
            return T("exc", v.cls, *[f(x) for x in v.args])
        if isinstance(v, Native):
            return T("native", v.name)
        if isinstance(v, Partial):
            return T("partial", f(v.fn), *[f(x) for x in v.args])
        if isinstance(v, Super):
            return T("super")
        if v.__class__.__name__ == "View":
            return T(v.what, f(v.d))
        if isinstance(v, tuple):
            return T("tuple", *[f(x) for x in v])
        return C(v) if isinstance(v, (str, int, float, bytes, bool, type(None))) else T("opaque", str(type(v)))

    # -------------------------------------------------------------- classes
    def classobj(self, info, env=None):
        co = self.classes.get(id(info.node)) if env is None else None
        if co is None:
            co = ClassObj(info, env)
            if env is None:
                self.classes[id(info.node)] = co
            else:
                # classes made by running a class statement in a function: every run makes another one
                co.nth = len(self.dyn_classes)
                self.dyn_classes.append(co)
        return co

    def class_bases(self, co):
        if co.bases is None:
            out = []
            env = co.env or self.menv(co.info.module)
            for b in co.info.node.bases:
                n = b
                while isinstance(n, ast.Subscript):
                    n = n.value
                v = self.ev(n, env)
                out.append(v)
            co.bases = out
        return co.bases

    def mro(self, co):
        """list of ClassObj | ext T (C3 is not needed here: depth first, last occurrence kept)."""
        r = getattr(co, "_mro", None)
        if r is not None:
            return r
        out = []

        def go(c):
            out.append(c)
            if isinstance(c, ClassObj):
                for b in self.class_bases(c):
                    go(b)
        go(co)
        res = []
        for i, c in enumerate(out):
            if not any(c is d for d in out[i + 1:]):
                res.append(c)
        co._mro = res
        return res

    def is_enum_class(self, co):
        return any(isinstance(c, T) and c.op == "ext" and c.a[0] in ("enum.Enum", "enum.IntEnum", "enum.Flag", "enum.IntFlag")
                   for c in self.mro(co))

    def is_exc_class(self, co):
        return any(isinstance(c, T) and c.op == "ext" and ext_exc_class(c.a[0]) is not None for c in self.mro(co))

    def dc_fields(self, co):
        """ordered dict name -> field Inst, or None if the class is not a dataclass."""
        r = getattr(co, "_dcf", "unset")
        if r != "unset":
            return r
        if not self.is_dataclass_cls(co):
            co._dcf = None
            return None
        out = {}
        for c in reversed(self.mro(co)):
            if not isinstance(c, ClassObj) or not c.info.is_dataclass():
                continue
            env = c.env or self.menv(c.info.module)
            for name, ann, default in c.info.ann:
                if "ClassVar" in ast.unparse(ann):
                    continue
                f = Inst(None)
                f.tag = "field"
                df, fac = ext("dataclasses.MISSING"), ext("dataclasses.MISSING")
                if default is not None:
                    if isinstance(default, ast.Call) and ast.unparse(default.func).rsplit(".", 1)[-1] == "field":
                        for kw in default.keywords:
                            if kw.arg == "default":
                                df = self.ev(kw.value, env)
                            elif kw.arg == "default_factory":
                                fac = self.ev(kw.value, env)
                    else:
                        df = self.ev(default, env)
                for k, v in (("name", C(name)), ("type", Lazy_(lambda a=ann, e=env: self.ev_annotation(a, e))),
                             ("default", df), ("default_factory", fac), ("init", TRUE)):
                    f.d.entries[C(k)] = (C(k), v)
                f.owner = co
                f.fname = name
                out[name] = f
        co._dcf = out
        return out

    def is_dataclass_cls(self, co):
        return any(isinstance(c, ClassObj) and c.info.is_dataclass() for c in self.mro(co))

    def ev_annotation(self, ann, env):
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            return C(ann.value)
        return self.ev(ann, env)

    def find_member(self, co, name, after=None):
        """(owner, member node | value) along the MRO."""
        skip = after is not None
        for c in self.mro(co):
            if skip:
                if c is after:
                    skip = False
                continue
            if isinstance(c, ClassObj):
                if name in c.attrs:
                    return c, c.attrs[name]
                if name in c.info.members:
                    return c, c.info.members[name]
        return None, None

    def deco_names(self, fn):
        out = []
        for d in fn.decorator_list:
            n = d.func if isinstance(d, ast.Call) else d
            out.append(ast.unparse(n).rsplit(".", 1)[-1])
        return out

    def func_of(self, owner, node):
        env = owner.env or self.menv(owner.info.module)
        key = ("fn", id(node), id(owner))
        f = self.fn_ids.get(key)
        if f is None:
            f = self.make_func(node, env, owner.info.module, owner)
            self.fn_ids[key] = f
        return f

    def make_func(self, node, env, module, cls=None):
        a = node.args
        defaults = [self.ev(d, env) for d in a.defaults]
        kwd = {k.arg: self.ev(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        name = getattr(node, "name", "<lambda>")
        return Func(module, node, env, name, cls, defaults, kwd)

    def menv(self, module):
        e = self.module_env.get(module.name)
        if e is None:
            e = Env(module)
            e.vars.update(self.opts.globals.get(module.name, {}))
            self.module_env[module.name] = e
        return e

    def global_(self, module, name):
        e = self.menv(module)
        if name in e.vars:
            return e.vars[name]
        d = module.defs.get(name)
        if d is None:
            if name == "__name__":
                return C(module.name)
            if name == "__file__":
                return C(module.path)
            if hasattr(_bi, name):
                return ext("builtins." + name)
            return None
        if d[0] == "func":
            v = self.decorated(d[1], e, module)
        elif d[0] == "class":
            v = self.classobj(d[1])
        elif d[0] == "import":
            v = self.from_resolved(self.repo.resolve(d[1], d[2]), d)
        elif d[0] == "alt":
            i = int(self.decide(T("import fails", name)))
            alt = d[1][i]
            if alt[0] == "import":
                v = self.from_resolved(self.repo.resolve(alt[1], alt[2]), alt)
            else:
                v = self.ev(alt[1], e)
        else:
            e.vars[name] = T("undef", module.name, name)
            v = self.ev(d[1], e)
        e.vars[name] = v
        return v

    def from_resolved(self, r, d=None):
        if r[0] == "func":
            return self.global_(r[1], r[2].name)
        if r[0] == "class":
            return self.classobj(r[1])
        if r[0] == "module":
            return ModuleObj(r[1])
        if r[0] == "expr":
            return self.global_(r[1], r[3])
        if r[0] == "ext":
            return ext(canon_ext(r[1]))
        self.imprecise("name %s cannot be resolved" % (r[1],))

    def decorated(self, node, env, module, cls=None):
        f = self.make_func(node, env, module, cls)
        for d in reversed(node.decorator_list):
            n = ast.unparse(d.func if isinstance(d, ast.Call) else d).rsplit(".", 1)[-1]
            if n in ("lru_cache", "cache", "wraps", "abstractmethod", "overload", "staticmethod", "classmethod",
                     "property", "no_type_check", "singledispatch"):
                continue
            dv = self.try_local_deco(d, env)
            if dv is not None:
                f = self.call(dv, [f], {}, node)
        return f

    def try_local_deco(self, d, env):
        v = self.ev(d, env)
        return v if isinstance(v, (Func, Bound, ClassObj, Native)) or v is ext("click.command") or v is ext("click.group") else None

    # -------------------------------------------------------------- lookup
    def lookup(self, qual):
        """Value of a dotted package name, e.g. 'hyperstate.hyperstate.StateManager'."""
        parts = qual.split(".")
        for i in range(len(parts), 0, -1):
            m = self.repo.modules.get(".".join(parts[:i]))
            if m is None:
                continue
            if i == len(parts):
                return ModuleObj(m)
            v = self.global_(m, parts[i])
            if v is None or (isinstance(v, T) and v.op == "ext" and v.a[0] == "builtins." + parts[i]):
                break
            for a in parts[i + 1:]:
                v = self.getattr_(v, a)
            return v
        raise AnalysisBroken("anchor %s not found" % qual)

    def name(self, n, env):
        e = env
        while e is not None:
            if n in e.vars:
                v = e.vars[n]
                if isinstance(v, T) and v.op == "undef":
                    if len(v.a) == 1:
                        self.raise_("UnboundLocalError", C(n))
                return v
            e = e.parent
        v = self.global_(env.module, n)
        if v is None:
            self.raise_("NameError", C(n))
        return v

    def set_name(self, n, v, env):
        if n in env.globals:
            self.menv(env.module).vars[n] = v
            return
        if n in env.nonlocals:
            e = env.parent
            while e is not None:
                if n in e.vars:
                    e.vars[n] = v
                    return
                e = e.parent
        env.vars[n] = v


class Lazy_:
    """A value computed on first use (field types)."""
    def __init__(self, fn):
        self.fn, self.v = fn, None

    def get(self):
        if self.v is None:
            self.v = self.fn()
        return self.v


def kind_of_const(v):
    if v is None:
        return "none"
    if v is True or v is False:
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, float):
        return "float"
    if isinstance(v, str):
        return "str"
    if isinstance(v, bytes):
        return "bytes"
    return "obj"


EXT_ALIAS = {
    "posixpath.join": "os.path.join", "typing_extensions.Literal": "typing.Literal",
    "typing_extensions.get_origin": "typing.get_origin", "typing_extensions.get_args": "typing.get_args",
    "collections.OrderedDict": "builtins.dict", "builtins.IOError": "builtins.OSError",
    "builtins.EnvironmentError": "builtins.OSError", "pathlib.PosixPath": "pathlib.Path",
}


def canon_ext(n):
    return EXT_ALIAS.get(n, n)
