"""Abstract models of the builtins and libraries the package uses."""
import errno
import ast
import re
import math
from .terms import *
from .fs import FsMixin, prefix_of, rebase
from .cli import CliMixin
from .engine import Raise, Stop, kind_of_const, KIND_OF_EXT, BASE_KINDS, DOC_KINDS, ext_exc_class, Lazy_, canon_ext

STR_METHODS = set("split rsplit partition rpartition replace strip lstrip rstrip startswith endswith join format lower upper "
                  "title capitalize casefold splitlines encode isdigit isdecimal isnumeric isalpha isidentifier zfill find rfind index "
                  "rindex count ljust rjust center swapcase removeprefix removesuffix expandtabs translate format_map".split())
DICT_METHODS = set("get items keys values pop setdefault update popitem".split())
LIST_METHODS = set("append extend insert sort reverse".split())
SET_METHODS = set("add discard union difference intersection issubset issuperset symmetric_difference "
                  "difference_update intersection_update".split())
BUILTIN_CLASSES = set("int str float bool dict list tuple set frozenset bytes object type".split())
ARRAY_METHODS = frozenset("cpu detach clone contiguous numpy copy reshape astype tobytes tolist view flatten ravel transpose "
                          "squeeze unsqueeze float double half bfloat16 int long short bool to newbyteorder byteswap resolve_conj resolve_neg".split())
ARRAY_MAKERS = dict([("numpy." + n, "ndarray") for n in "ndarray copy array asarray ascontiguousarray frombuffer reshape "
                     "require empty zeros asfortranarray".split()]
                    + [("torch." + n, "tensor") for n in "from_numpy as_tensor tensor clone frombuffer".split()]
                    + [("numpy.ndarray.tobytes", "bytes")])
PURE_PREFIX = ("numpy.", "math.", "inspect.", "typing.", "click.style", "click.unstyle", "re.", "string.", "textwrap.",
               "operator.", "itertools.", "docstring_parser.", "difflib.", "collections.", "enum.", "abc.", "torch.")
PURE_BUILTIN = set("abs round hash format ord chr id divmod pow callable bin hex ascii slice complex bytearray bytes memoryview".split())
DANGER = ("pickle.", "marshal.", "dill.", "cloudpickle.", "shelve.", "subprocess.", "yaml.", "joblib.", "torch.load",
          "numpy.load", "_pickle.", "cPickle.", "ctypes.", "runpy.", "importlib.", "code.")
DANGER_EXACT = {"builtins.eval", "builtins.exec", "builtins.compile", "builtins.__import__", "os.system", "os.popen",
                "os.execv", "os.execvp", "os.spawnl", "os.posix_spawn"}
DANGER_OK = {"pickle.dumps", "pickle.dump", "importlib.metadata", "yaml.dump", "torch.load_ok"}


class View(Heap):
    def __init__(self, d, what):
        self.d, self.what = d, what


class LibMixin(FsMixin, CliMixin):
    # ------------------------------------------------------------ strings
    def to_str(self, v):
        v = self.bind_lit(v)
        if isinstance(v, T):
            if v.op == "c":
                return C(str(v.a[0]))
            if v.op == "P":
                return v.a[0]
            ks = self.kinds(v)
            if ks == {"str"}:
                return v
            return T("str", v)
        if isinstance(v, Inst) and v.cls is not None:
            for n in ("__str__", "__repr__"):
                owner, m = self.find_member(v.cls, n)
                if m is not None:
                    return self.call(self.func_of(owner, m), [v], {})
            if self.is_exc_class(v.cls):
                a = v.d.entries.get(C("args"))
                if a and isinstance(a[1], Seq) and len(a[1].items) == 1:
                    return self.to_str(a[1].items[0])
        if isinstance(v, Exc) and len(v.args) == 1:
            return self.to_str(v.args[0])
        if isinstance(v, (Seq, Dict)) or isinstance(v, Inst) and v.cls is not None:
            r = self.x_builtins__repr([v], {}, None)
            if not (isinstance(r, T) and r.op == "repr"):
                return r
        return T("str", self.freeze(v))

    def cat(self, parts):
        out = []
        for p in parts:
            p = self.bind_lit(p)
            if not isinstance(p, T):
                p = self.freeze(p)
            if p.op == "P":
                p = p.a[0]
            ps = p.a if p.op == "cat" else (p,)
            for q in ps:
                if is_str_c(q) and q.a[0] == "":
                    continue
                if out and is_str_c(out[-1]) and is_str_c(q):
                    out[-1] = C(out[-1].a[0] + q.a[0])
                else:
                    out.append(q)
        if not out:
            return C("")
        if len(out) == 1:
            return out[0]
        return T("cat", *out)

    def format_(self, x, spec):
        x = self.bind_lit(x)
        if is_c(x) and is_c(spec):
            try:
                return C(format(x.a[0], spec.a[0]))
            except (ValueError, TypeError):
                self.raise_("ValueError")
        xf = self.freeze(x)
        if is_str_c(spec):
            m = re.fullmatch(r"0>?(\d+)d?", spec.a[0])
            if m:
                return T("fmt", xf, C("0%sd" % m.group(1)))
            if spec.a[0] in ("d", "s", ""):
                return self.to_str(x)
        return T("fmt", xf, self.freeze(spec))

    def percent(self, a, b):
        args = list(b.items) if isinstance(b, Seq) and b.kind == "tuple" else [b]
        out = []
        pos = 0
        for m in re.finditer(r"%(%|[0-9.]*[sdrif])", a.a[0]):
            out.append(C(a.a[0][pos:m.start()]))
            pos = m.end()
            sp = m.group(1)
            if sp == "%":
                out.append(C("%"))
                continue
            if not args:
                self.raise_("TypeError")
            x = args.pop(0)
            if sp in ("s", "d", "i"):
                out.append(self.to_str(x))
            elif sp == "r":
                out.append(self.call_ext("builtins.repr", [x], {}, None))
            else:
                out.append(self.format_(x, C(sp.replace("i", "d"))))
        out.append(C(a.a[0][pos:]))
        return self.cat(out)

    def split_first(self, s, sep):
        """(before, after) at the first occurrence of the constant sep, or None."""
        parts = list(s.a) if s.op == "cat" else [s]
        for i, p in enumerate(parts):
            if is_str_c(p):
                j = p.a[0].find(sep)
                if j >= 0:
                    return (self.cat(parts[:i] + [C(p.a[0][:j])]), self.cat([C(p.a[0][j + len(sep):])] + parts[i + 1:]))
            elif self.numeric_text(p) and re.search(r"[^-+.0-9e_infa]", sep):
                continue
            elif p.op in ("fmt", "int", "str") and (p.op != "str") and not sep.strip("-.0123456789") == "":
                continue
            elif self.contains(p, C(sep)):
                return (self.cat(parts[:i] + [T("before", p, C(sep))]), self.cat([T("after", p, C(sep))] + parts[i + 1:]))
        return None

    def split_last(self, s, sep):
        parts = list(s.a) if s.op == "cat" else [s]
        for i in range(len(parts) - 1, -1, -1):
            p = parts[i]
            if is_str_c(p):
                j = p.a[0].rfind(sep)
                if j >= 0:
                    return (self.cat(parts[:i] + [C(p.a[0][:j])]), self.cat([C(p.a[0][j + len(sep):])] + parts[i + 1:]))
            elif p.op == "fmt" or self.numeric_text(p) and re.search(r"[^-+.0-9e_infa]", sep):
                continue
            elif self.contains(p, C(sep)):
                return (self.cat(parts[:i] + [T("before_last", p, C(sep))]), self.cat([T("after_last", p, C(sep))] + parts[i + 1:]))
        return None

    def str_method(self, s, name, args, kw):
        fa = [self.freeze(self.bind_const(a)) for a in args]
        s = self.bind_const(s)
        if is_c(s) and all(is_c(a) for a in fa) and all(is_c(self.freeze(v)) for v in kw.values()) and name not in ("join", "format"):
            try:
                r = getattr(s.a[0], name)(*[a.a[0] for a in fa], **{k: self.freeze(v).a[0] for k, v in kw.items()})
            except (TypeError, ValueError, AttributeError) as e:
                self.raise_(type(e).__name__)
            return self.from_py(r)
        if name in ("split", "rsplit"):
            ms = kw.get("maxsplit", args[1] if len(args) > 1 else C(-1))
            ms = self.bind_const(ms)
            sep = kw.get("sep", args[0] if args else NONE)
            sep = self.bind_const(sep)
            if is_str_c(sep) and is_c(ms):
                fn = self.split_first if name == "split" else self.split_last
                if ms.a[0] == 1:
                    r = fn(s, sep.a[0])
                    return Seq("list", [s] if r is None else list(r))
                # unlimited: resolve as long as the rest is not an unknown tail
                out, cur, n = [], s, 0
                while n < 12:
                    r = self.split_first(cur, sep.a[0])
                    if r is None:
                        return Seq("list", out + [cur])
                    if any(x.op == "after" for x in subterms(r[1])):
                        return Seq("list", out + [r[0], Star(T("part", r[1], sep))])
                    out.append(r[0])
                    cur = r[1]
                    n += 1
            return Seq("list", [Star(T("part", s, self.freeze(sep)))])
        if name in ("partition", "rpartition"):
            sep = fa[0]
            if is_str_c(sep):
                r = (self.split_first if name == "partition" else self.split_last)(s, sep.a[0])
                if r is None:
                    return Seq("tuple", [s, C(""), C("")] if name == "partition" else [C(""), C(""), s])
                return Seq("tuple", [r[0], sep, r[1]])
        if name == "join":
            seq = args[0]
            segs = self.segments(seq)
            if all(k == "v" for k, _ in segs):
                out = []
                for i, (k, x) in enumerate(segs):
                    if i:
                        out.append(s)
                    ks = self.kinds(x)
                    if ks is not None and "str" not in ks:
                        self.raise_("TypeError", C("join"))
                    out.append(x)
                return self.cat(out)
            return T("strop", "join", self.freeze(s), T("seq", *[self.freeze(x) if k == "v" else T("star", self.freeze(x())) for k, x in segs]))
        if name == "format" and is_c(s):
            out, i, pos = [], 0, 0
            for m in re.finditer(r"\{\{|\}\}|\{([A-Za-z0-9_]*)(![rs])?(:[^{}]*)?\}", s.a[0]):
                out.append(C(s.a[0][pos:m.start()]))
                pos = m.end()
                if m.group(0) in ("{{", "}}"):
                    out.append(C(m.group(0)[0]))
                    continue
                key = m.group(1)
                if key == "" or key.isdigit():
                    j = i if key == "" else int(key)
                    i += 1
                    if j >= len(args):
                        self.raise_("IndexError")
                    x = args[j]
                else:
                    if key not in kw:
                        self.raise_("KeyError", C(key))
                    x = kw[key]
                if m.group(2) == "!r":
                    x = self.call_ext("builtins.repr", [x], {}, None)
                out.append(self.format_(x, C(m.group(3)[1:])) if m.group(3) else self.to_str(x))
            out.append(C(s.a[0][pos:]))
            return self.cat(out)
        if name == "replace" and len(fa) >= 2 and all(is_str_c(a) for a in fa[:2]):
            if len(fa[0].a[0]) == 1:
                parts = s.a if s.op == "cat" else (s,)
                return self.cat([C(p.a[0].replace(fa[0].a[0], fa[1].a[0])) if is_str_c(p)
                                 else T("strop", "replace", p, fa[0], fa[1]) for p in parts])
            return T("strop", "replace", s, *fa)
        if name in ("startswith", "endswith"):
            a = self.deref(args[0])
            if isinstance(a, Seq):
                for x in a.items:
                    if self.truth(self.str_method(s, name, [x], {})):
                        return TRUE
                return FALSE
            parts = s.a if s.op == "cat" else (s,)
            if is_str_c(fa[0]):
                w = fa[0].a[0]
                e = parts[0] if name == "startswith" else parts[-1]
                if w == "":
                    return TRUE
                if is_str_c(e):
                    if len(e.a[0]) >= len(w):
                        return B(getattr(e.a[0], name)(w))
                    if name == "startswith" and not w.startswith(e.a[0]) or name == "endswith" and not w.endswith(e.a[0]):
                        return FALSE
            return B(self.decide(T(name, s, fa[0])))
        if name in ("isdigit", "isdecimal", "isnumeric"):
            d = self.all_digits(s)
            if d is not None:
                return B(d)
            return B(self.decide(T("isdigit", s)))
        if name in ("isalpha", "isidentifier"):
            return B(self.decide(T(name, s)))
        if name == "zfill" and is_c(fa[0]) and s.op == "str":
            return T("fmt", s.a[0], C("0%dd" % fa[0].a[0]))
        if name == "rjust" and len(fa) == 2 and is_c(fa[0]) and fa[1] is C("0") and s.op == "str":
            return T("fmt", s.a[0], C("0%dd" % fa[0].a[0]))
        if name == "encode":
            return T("bytes", s)
        if name in ("find", "rfind", "index", "rindex", "count"):
            t = T("strint", name, s, *fa)
            self.kindmap.setdefault(t, frozenset(["int"]))
            return t
        if name == "splitlines":
            t = T("lines", s)
            self.kindmap.setdefault(t, frozenset(["list"]))
            return t
        return T("strop", name, s, *fa)

    def from_py(self, r):
        if isinstance(r, list):
            return Seq("list", [self.from_py(x) for x in r])
        if isinstance(r, tuple):
            return Seq("tuple", [self.from_py(x) for x in r])
        return C(r)

    # ------------------------------------------------------------ paths
    def pkey(self, v):
        """Normal form of a path value: wrapper-free join term."""
        v = self.bind_lit(v)
        if not isinstance(v, T):
            v = self.freeze(v)
        if v.op in ("P", "abs"):
            return self.pkey(v.a[0])
        if v.op == "str" and self.kinds(v.a[0]) in (frozenset(["path"]),):
            return self.pkey(v.a[0])
        if v.op == "cat":
            # "<dir>/name" as a join
            parts = list(v.a)
            for i, p in enumerate(parts):
                if is_str_c(p) and "/" in p.a[0] and i > 0:
                    a, b = p.a[0].split("/", 1)
                    head = self.pkey(self.cat(parts[:i] + [C(a)]))
                    tail = self.cat([C(b)] + parts[i + 1:])
                    return self.mkjoin(head, tail)
            return v
        if v.op == "join":
            r = self.pkey(v.a[0])
            for c in v.a[1:]:
                r = self.mkjoin(r, c)
            return r
        if v.op == "parent":
            b = self.pkey(v.a[0])
            if b.op == "join":
                return b.a[0] if len(b.a) == 2 else T("join", *b.a[:-1])
            if b.op == "item" and b.a[0].op in ("listdir",):
                return b.a[0].a[0]
            return T("parent", b)
        return v

    def mkjoin(self, a, b):
        b = self.pkey(b)
        if is_str_c(b) and b.a[0] == "":
            return a
        aa = list(a.a) if a.op == "join" else [a]
        if b.op == "basename" and b.a[0].op == "item" and b.a[0].a[0].op == "listdir" and b.a[0].a[0].a[0] is a:
            return b.a[0]
        if is_str_c(b) and "/" in b.a[0]:
            bb = [C(x) for x in b.a[0].split("/") if x not in ("", ".")]
        elif b.op == "join":
            bb = list(b.a)
        else:
            bb = [b]
        return T("join", *(aa + bb))

    def path_join(self, a, *bs):
        r = self.pkey(a)
        for b in bs:
            r = self.mkjoin(r, self.freeze(self.bind_lit(b)))
        return T("P", r)

    def path_attr(self, t, name):
        c = self.pkey(t)
        if name == "parent":
            return T("P", self.pkey(T("parent", c)))
        if name == "name":
            if c.op == "join" and c.a[-1].op in ("c", "cat", "sym", "fmt", "strop", "item"):
                return self.to_str(c.a[-1])
            t2 = T("basename", c)
            self.kindmap.setdefault(t2, frozenset(["str"]))
            return t2
        if name in ("suffix", "stem"):
            return T("strop", name, c)
        if name == "parents":
            return T("parents", c)
        if name == "parts":
            return T("parts", c)
        return T("attr", t, name)

    def path_method(self, t, name, args, kw):
        c = self.pkey(t)
        if name in ("exists", "is_dir", "is_file"):
            op = {"exists": "exists", "is_dir": "isdir", "is_file": "isfile"}[name]
            return self.fs_query(op, c)
        if name == "mkdir":
            self.fs_mkdir(c)
            return NONE
        if name in ("absolute", "resolve", "expanduser"):
            return t
        if name == "joinpath":
            return self.path_join(t, *args)
        if name == "with_name":
            return T("P", self.mkjoin(self.pkey(T("parent", c)), self.freeze(args[0])))
        if name == "with_suffix":
            return T("P", T("strop", "with_suffix", c, self.freeze(args[0])))
        if name in ("iterdir", "glob", "rglob"):
            self.event("listdir", c)
            kn = self.fs_children(c)
            if kn is not None and name == "iterdir":
                return Seq("gen", [T("P", x) for x in kn])
            if kn is not None and name == "glob" and is_c(self.freeze(args[0])):
                out = []
                for x in kn:
                    m = self.glob_match(self.path_attr(T("P", x), "name"), self.freeze(args[0]).a[0])
                    if m is None:
                        self.imprecise("glob")
                    if m:
                        out.append(T("P", x))
                return Seq("gen", out)
            l = T("listdir", c) if name == "iterdir" else T(name, c, self.freeze(args[0]))
            i = self.new_idx(l)
            e = T("item", l, i)
            self.kindmap[e] = frozenset(["path"])
            return Seq("gen", [Star(e)])
        if name == "open":
            return self.open_(c, args, kw)
        if name in ("read_text", "read_bytes"):
            return self.file_method(T("file", c, C("r"), 0), "read", [], {})
        if name in ("write_text", "write_bytes"):
            f = self.open_(c, [C("w" if name == "write_text" else "wb")], {})
            self.fs_write(c, args[0])
            self.event("close", c, f.a[1])
            return NONE
        if name in ("rename", "replace"):
            self.rename(c, self.pkey(args[0]))
            return args[0]
        if name == "unlink":
            return self.fs_op("unlink", [c])
        if name == "rmdir":
            return self.fs_op("rmtree", [c])
        if name == "touch":
            self.event("open", c, C("a"))
            self.fs_change(c)
            return NONE
        if name in ("is_absolute", "is_symlink"):
            return B(self.decide(T(name, c)))
        if name == "stat":
            return T("stat", c, self.fs_epoch)
        if name in ("as_posix", "__str__", "__fspath__"):
            return c
        if name == "relative_to":
            return T("P", T("strop", "relative_to", c, self.pkey(args[0])))
        if name == "samefile":
            return B(self.decide(T("eq", c, self.pkey(args[0]))))
        return self.opaque_method(t, name, args, kw)

    def enter(self, cm):
        if isinstance(cm, T):
            if cm.op == "file":
                return cm, lambda: self.event("close", cm.a[0], cm.a[1])
            if cm.op == "tmpcm":
                d = T("tmpdir", *cm.a)

                def ex():
                    self.event("cleanup", d)
                    self.fs_remove(d)
                return d, ex
        return cm, (lambda: self.event("exitcm", cm))

    # ------------------------------------------------------------ types
    def mk_ty(self, origin, args):
        return T("ty", origin, *[self.freeze(a) for a in args])

    def ext_subscript(self, c, k):
        n = c.a[0] if c.op == "ext" else None
        if n is None:
            return T("item", c, self.freeze(k))
        short = n.rsplit(".", 1)[-1]
        k = self.deref(k)
        args = list(k.items) if isinstance(k, Seq) else (list(k.a) if isinstance(k, T) and k.op == "tuple" else [k])
        if short in ("List", "list", "Sequence", "Set", "set", "Iterable"):
            if len(args) != 1 and short in ("List", "list"):
                self.raise_("TypeError", C("Too many parameters"))
            return self.mk_ty({"List": "list", "Set": "set"}.get(short, short), args)
        if short in ("Dict", "dict"):
            if len(args) != 2:
                self.raise_("TypeError", C("wrong number of parameters"))
            return self.mk_ty("dict", args)
        if short in ("Tuple", "tuple"):
            return self.mk_ty("tuple", args)
        if short == "Optional":
            return self.union(args + [ext("builtins.NoneType")])
        if short == "Union":
            return self.union(args)
        if short == "Literal":
            return self.mk_ty("Literal", args)
        if n == "os.environ":
            if not self.contains(c, k):
                self.raise_("KeyError", k)
            return T("env", self.freeze(k))
        if n.startswith("typing."):
            return T("ty", n, *[self.freeze(a) for a in args])
        return T("item", c, self.freeze(k))

    def union(self, args):
        out = []
        for a in args:
            a = self.freeze(a)
            if is_c(a) and a.a[0] is None:
                a = ext("builtins.NoneType")
            for x in (a.a[1:] if a.op == "ty" and a.a[0] == "Union" else (a,)):
                if x not in out:
                    out.append(x)
        return out[0] if len(out) == 1 else T("ty", "Union", *out)

    def thaw_cls(self, t):
        """class terms inside typing terms back to class objects"""
        if isinstance(t, T) and t.op == "class":
            for co in [*self.classes.values(), *self.dyn_classes]:
                if co.qual == t.a[0]:
                    return co
            co = self.class_by_qual(t.a[0])
            return co if co is not None else t
        return t

    TY_ORIGIN = {"list": "builtins.list", "dict": "builtins.dict", "tuple": "builtins.tuple", "set": "builtins.set",
                 "Union": "typing.Union", "Literal": "typing.Literal"}

    def ty_attr(self, t, name):
        if name == "__args__":
            return Seq("tuple", [self.thaw_cls(x) for x in t.a[1:]])
        if name == "__origin__":
            return ext(self.TY_ORIGIN.get(t.a[0], t.a[0]))
        if name == "__module__":
            return C("typing")
        self.raise_("AttributeError", C(name))

    def type_of(self, v):
        v = self.bind_lit(v)
        if isinstance(v, Inst):
            return v.cls if v.cls is not None else ext("dataclasses.Field")
        if isinstance(v, ClassObj):
            return ext("enum.EnumMeta") if self.is_enum_class(v) else ext("builtins.type")
        if isinstance(v, Exc):
            return ext(v.cls)
        if isinstance(v, Nt):
            return T("type", self.freeze(v))
        ks = self.kinds(v)
        if ks is not None and len(ks) == 1:
            k = next(iter(ks))
            m = {"none": "NoneType", "int": "int", "float": "float", "str": "str", "bool": "bool", "dict": "dict", "list": "list",
                 "tuple": "tuple", "set": "set", "bytes": "bytes"}
            if k in m:
                return ext("builtins." + m[k])
            if k == "path":
                return ext("pathlib.Path")
            if k.startswith("inst:"):
                co = self.class_by_qual(k[5:])
                if co is not None:
                    return co
        return T("type", self.freeze(v))

    def type_attr(self, t, name):
        x = t.a[0]
        if name == "__bases__":
            if x.op == "nt":
                return Seq("tuple", [ext("builtins.tuple")])
            if self.split(x, ["nt", "nt0"]):
                return Seq("tuple", [ext("builtins.tuple")])
            b = T("base0", x)
            self.facts[T("eq", b, ext("builtins.tuple"))] = False
            return Seq("tuple", [b])
        if name == "_fields":
            if x.op == "nt":
                return Seq("tuple", [kv.a[0] for kv in x.a[1].a[1:] if kv.op == "kv"])
            if self.split(x, ["nt", "nt0"]):
                if self.kinds(x) == {"nt0"}:
                    return Seq("tuple", [])
                f = T("ntfields", x)
                e = T("item", f, self.new_idx(f))
                self.kindmap[e] = frozenset(["str"])
                return Seq("tuple", [Star(e)], base=f)
            self.raise_("AttributeError", C(name))
        if name in ("__name__", "__qualname__"):
            if x.op == "nt":
                return x.a[0]
            b = T("typename", x)
            self.kindmap.setdefault(b, frozenset(["str"]))
            return b
        return T("attr", t, name)

    def nt_attr(self, o, name):
        if name == "_fields":
            return Seq("tuple", [k for k, _ in o.d.entries.values()])
        return T("type", self.freeze(o))

    def nt_method(self, o, name, args, kw):
        if name == "_asdict":
            return self.clone(o.d)
        n = Nt(o.name, self.clone(o.d))
        for k, v in kw.items():
            self.dict_set(n.d, C(k), v)
        return n

    # ------------------------------------------------------------ copies
    def clone(self, v, deep=False, memo=None):
        v = self.deref(v)
        memo = memo if memo is not None else {}
        if id(v) in memo:
            return memo[id(v)]
        r = lambda x: self.clone(x, True, memo) if deep else x
        if isinstance(v, Seq):
            o = Seq(v.kind, [], v.base)
            memo[id(v)] = o
            o.items = [Star(r(i.value) if i.value is not None else None) if isinstance(i, Star) else r(i) for i in v.items]
            return o
        if isinstance(v, Dict):
            o = Dict(v.base)
            memo[id(v)] = o
            o.entries = {k: (kk, x if x is Dict.TOMB else r(x)) for k, (kk, x) in v.entries.items()}
            o.stars = list(v.stars)
            o.writes = list(v.writes)
            return o
        if isinstance(v, Inst):
            if self.freeze(v).op == "enum":
                return v
            o = Inst(v.cls, v.base)
            memo[id(v)] = o
            o.d = self.clone(v.d, deep, memo)
            return o
        if isinstance(v, Nt):
            return Nt(v.name, self.clone(v.d, deep, memo))
        if isinstance(v, T):
            ks = self.kinds(v)
            if ks == {"dict"}:
                return Dict(base=v)
            if ks == {"list"}:
                return Seq("list", [Star(None)], base=v)
            if ks is None or ks - {"none", "int", "float", "bool", "str", "bytes", "enum", "class", "func"}:
                return T("copyof", v) if v.op not in ("c", "ext", "ty") else v
        return v

    # ------------------------------------------------------------ methods
    def call_method(self, obj, name, args, kw, node=None):
        o = self.bind_lit(obj)
        if isinstance(o, T):
            if o.op == "ext":
                return self.call_ext(canon_ext(o.a[0] + "." + name), args, kw, node)
            if o.op == "file":
                return self.file_method(o, name, args, kw)
            if o.op == "P":
                return self.path_method(o, name, args, kw)
            ks = self.kinds(o)
            if ks is not None and len(ks) > 1:
                if name in DICT_METHODS and "dict" in ks:
                    if not self.split(o, ["dict"]):
                        self.raise_("AttributeError", C(name))
                elif name in STR_METHODS and "str" in ks:
                    if not self.split(o, ["str"]):
                        self.raise_("AttributeError", C(name))
                elif name in LIST_METHODS and "list" in ks:
                    if not self.split(o, ["list"]):
                        self.raise_("AttributeError", C(name))
                elif "none" in ks:
                    if self.split(o, ["none"]):
                        self.raise_("AttributeError", C(name))
                ks = self.kinds(o)
            elif ks is None:
                if name in DICT_METHODS and o.op not in ("ret", "call"):
                    self.refine(o, ["dict"])
                elif name in LIST_METHODS:
                    self.refine(o, ["list"])
                elif name in SET_METHODS:
                    self.refine(o, ["set"])
                ks = self.kinds(o)
            if ks == {"str"}:
                return self.str_method(o, name, args, kw)
            if ks == {"path"}:
                return self.path_method(T("P", self.pkey(o)), name, args, kw)
            if ks is not None and ks <= {"none", "int", "float", "bool"} and name not in ("is_integer", "bit_length", "as_integer_ratio", "__repr__", "__str__"):
                self.raise_("AttributeError", C(name))
            if name == "is_integer" and ks == {"float"}:
                return B(self.eq(T("int", o), o))
            if name in ("__repr__", "__str__"):
                return self.call_ext("builtins." + ("repr" if name == "__repr__" else "str"), [o], kw, node)
            h = self.heapify(o)
            if not isinstance(h, T):
                o = h
            elif name in ("_asdict", "_fields") and ks is not None and ks <= {"nt", "nt0"}:
                t = T("ntdict", o)
                self.kindmap.setdefault(t, frozenset(["dict"]))
                if ks == {"nt0"}:
                    return Dict()
                return Dict(base=t)
            elif o.op in ("ext_obj",):
                pass
            if isinstance(o, T):
                if ks is None and name in STR_METHODS:
                    return self.str_method(o, name, args, kw)
                if ks is None and name in ("exists", "is_dir", "iterdir", "mkdir", "is_file"):
                    self.refine(o, ["path"])
                    return self.path_method(T("P", o), name, args, kw)
                return self.opaque_method(o, name, args, kw)
        if isinstance(o, Inst):
            return self.call(self.getattr_(o, name), args, kw, node)
        if isinstance(o, Dict):
            return self.dict_method(o, name, args, kw)
        if isinstance(o, Seq):
            return self.seq_method(o, name, args, kw)
        if isinstance(o, View):
            self.imprecise("view method")
        return self.call(self.getattr_(o, name), args, kw, node)

    def array_method(self, of, kind, name, args, kw):
        """a pure method of a numpy array or torch tensor: the same term every time"""
        fa = tuple(self.freeze(a) for a in args)
        fk = tuple(T("kw", str(k), self.freeze(v)) for k, v in sorted(kw.items(), key=str))
        if name in ("tobytes", "tolist"):
            t = T("call", "numpy.ndarray." + name, of, *fa, *fk)
            k = "bytes" if name == "tobytes" else None
        elif name == "copy":
            t, k = T("call", "numpy.copy", of, *fa, *fk), "ndarray"
        elif name == "clone" and not fk:
            t, k = T("call", "torch.clone", of), "tensor"
        else:
            t, k = T("arr", of, name, fa, fk), {"numpy": "ndarray"}.get(name, kind)
        if k:
            self.kindmap.setdefault(t, frozenset([k]))
        return t

    def opaque_method(self, o, name, args, kw):
        of = self.freeze(o)
        kk = self.kinds(of) if isinstance(of, T) else None
        if kk and len(kk) == 1 and name in ARRAY_METHODS and kk <= {"ndarray", "tensor"}:
            return self.array_method(of, min(kk), name, args, kw)
        n = self.fresh("mcall")
        if self.may_raise(["builtins.Exception"], "mcall"):
            raise Raise(Exc("builtins.Exception", [], T("exc_of", n)), self.cur)
        r = T("mcall", of, name, tuple(self.freeze(a) for a in args),
              tuple(sorted((str(k), self.freeze(v)) for k, v in kw.items())), n)
        e = self.event("mcall", o, C(name), *args, **{str(k): v for k, v in kw.items()})
        e.kw["__ret__"] = r
        if self.opts.kind_hint:
            k = self.opts.kind_hint(self, r)
            if k is not None:
                self.kindmap[r] = frozenset(k)
        return r

    def file_method(self, f, name, args, kw):
        p = f.a[0]
        if name in ("write", "writelines"):
            self.fs_write(p, args[0])
            return NONE
        if name in ("read", "readlines", "readline"):
            self.event("read", p)
            v = self.fs_read(p)
            if v is not None and name == "read":
                return v
            t = T("read", p)
            self.kindmap.setdefault(t, frozenset(["str"]))
            return t
        if name == "close":
            self.event("close", p, f.a[1])
            return NONE
        if name in ("flush", "fileno", "seek", "truncate"):
            self.event("f" + name, p)
            return T("mcall", f, name)
        if name == "__enter__":
            return f
        return self.opaque_method(f, name, args, kw)

    def dict_method(self, d, name, args, kw):
        if name == "get":
            if self.dict_has(d, args[0]):
                return self.dict_get(d, args[0])
            return args[1] if len(args) > 1 else NONE
        if name in ("items", "keys", "values"):
            return View(d, name)
        if name == "pop":
            if self.dict_has(d, args[0]):
                v = self.dict_get(d, args[0])
                self.dict_del(d, args[0])
                return v
            if len(args) > 1:
                return args[1]
            self.raise_("KeyError", args[0])
        if name == "setdefault":
            if self.dict_has(d, args[0]):
                return self.dict_get(d, args[0])
            v = args[1] if len(args) > 1 else NONE
            self.dict_set(d, args[0], v)
            return v
        if name == "update":
            for a in args:
                self.dict_update(d, a)
            for k, v in kw.items():
                if k == "**":
                    self.dict_update(d, v)
                else:
                    self.dict_set(d, C(k), v)
            return NONE
        if name == "copy":
            return self.clone(d)
        if name == "clear":
            d.entries, d.stars, d.base, d.cleared = {}, [], None, True
            d.writes.append(("clear", None, False))
            return NONE
        if name == "__contains__":
            return B(self.dict_has(d, args[0]))
        if name == "__getitem__":
            return self.getitem(d, args[0])
        if name == "__setitem__":
            self.setitem(d, args[0], args[1])
            return NONE
        if name == "__len__":
            return self.call_ext("builtins.len", [d], {}, None)
        self.imprecise("dict.%s" % name)

    def seq_method(self, s, name, args, kw):
        if s.kind == "list" or s.kind == "set":
            if name in ("append", "add"):
                if s.kind == "set" and any(not isinstance(i, Star) and self.freeze(i) is self.freeze(args[0]) for i in s.items):
                    return NONE
                s.items.append(args[0])
                self.event("append", s, args[0])
                return NONE
            if name in ("extend", "update"):
                self.seq_extend(s, args[0])
                return NONE
            if name == "insert":
                i = self.bind_const(args[0])
                if is_c(i) and i.a[0] == 0:
                    s.items.insert(0, args[1])
                elif not s.has_star() and is_c(i):
                    s.items.insert(i.a[0], args[1])
                else:
                    s.items.append(args[1])
                return NONE
            if name == "pop":
                if s.kind == "list" and not s.has_star():
                    i = self.bind_const(args[0]) if args else C(-1)
                    if is_c(i):
                        if not isinstance(i.a[0], int):
                            self.raise_("TypeError", i)
                        try:
                            return s.items.pop(i.a[0])
                        except IndexError:
                            self.raise_("IndexError", i)
                if s.kind == "list" and s.items and (not args or args[0] is C(-1)) and not isinstance(s.items[-1], Star):
                    return s.items.pop()
                if s.kind == "list" and s.items and args and args[0] is C(0) and not isinstance(s.items[0], Star):
                    return s.items.pop(0)
                return T("popped", self.freeze(s), self.fresh("pop"))
            if name in ("remove", "discard"):
                for i, x in enumerate(s.items):
                    if isinstance(x, Star):
                        continue
                    if self.eq(x, args[0]):
                        del s.items[i]
                        self.event("remove", s, args[0])
                        return NONE
                if not s.has_star() and name == "remove":
                    self.raise_("ValueError" if s.kind == "list" else "KeyError", args[0])
                self.event("remove", s, args[0])
                return NONE
            if name == "clear":
                s.items = []
                return NONE
            if name == "copy":
                return self.clone(s)
            if name == "reverse":
                s.items.reverse()
                return NONE
            if name == "sort":
                r = self.call_ext("builtins.sorted", [Seq("list", s.items, s.base)], kw, None)
                s.items = self.spread(r)
                return NONE
        if s.kind == "set":
            if name in ("union", "difference", "intersection", "symmetric_difference"):
                op = {"union": "|", "difference": "-", "intersection": "&", "symmetric_difference": "^"}[name]
                r = s
                for a in args:
                    r = self.set_op(op, r, a)
                return r
            if name == "issubset":
                return B(self.decide(T("subset", self.set_norm(s), self.set_norm(args[0]))))
            if name == "issuperset":
                return B(self.decide(T("subset", self.set_norm(args[0]), self.set_norm(s))))
        if name in ("index", "count"):
            if not s.has_star():
                for i, x in enumerate(s.items):
                    if self.eq(x, args[0]):
                        return C(i) if name == "index" else C(1)
                if name == "index":
                    self.raise_("ValueError", args[0])
                return C(0)
            return T("op", name, self.freeze(s), self.freeze(args[0]))
        if name == "__len__":
            return self.call_ext("builtins.len", [s], {}, None)
        if name == "__iter__":
            return s
        if name == "__contains__":
            return B(self.contains(s, args[0]))
        self.raise_("AttributeError", C(name)) if name in DICT_METHODS | STR_METHODS else self.imprecise("%s.%s" % (s.kind, name))

    # ------------------------------------------------------------ external attributes
    CONSTS = {"math.pi": math.pi, "math.inf": math.inf, "math.e": math.e, "os.sep": "/", "os.curdir": "."}

    def ext_getattr(self, base, name):
        full = canon_ext(base + "." + name)
        if base == "errno" and hasattr(errno, name):
            return C(getattr(errno, name))
        if full in self.CONSTS and self.CONSTS[full] is not None:
            return C(self.CONSTS[full])
        short = base.rsplit(".", 1)[-1]
        if base.startswith("builtins.") and short in BUILTIN_CLASSES | {"NoneType"} or (base.startswith("builtins.") and ext_exc_class(base)):
            if name in ("__name__", "__qualname__"):
                return C(short)
            if name == "__module__":
                return C("builtins")
            if name == "__bases__":
                return Seq("tuple", [] if short == "object" else [ext("builtins.object")])
            if name == "__doc__":
                return C("")
            if name in ("__args__", "__origin__", "__dataclass_fields__", "_fields", "__members__"):
                self.raise_("AttributeError", C(name))
        elif base in ("abc.ABC", "enum.Enum", "typing.Generic", "typing.Protocol"):
            if name == "__bases__":
                return Seq("tuple", [ext("builtins.object")])
            if name == "__doc__":
                return C("")
            if name in ("__name__", "__qualname__"):
                return C(short)
            if name in ("__args__", "__origin__", "__dataclass_fields__", "_fields", "__members__"):
                self.raise_("AttributeError", C(name))
        elif name in ("__args__", "__origin__", "__dataclass_fields__", "_fields", "__members__"):
            self.raise_("AttributeError", C(name))
        return ext(full)

    # ------------------------------------------------------------ external calls
    def call_ext(self, name, args, kw, node=None):
        m = self.opts.models.get(name)
        if m is not None:
            return m(self, args, kw, node)
        if name in DANGER_EXACT or (name.startswith(DANGER) and name not in DANGER_OK):
            self.event("danger", C(name), *args)
            return T("danger", name, self.fresh("danger"))
        f = getattr(self, "x_" + name.replace(".", "__"), None)
        if f is not None:
            return f(args, kw, node)
        if name.startswith("builtins."):
            ec = ext_exc_class(name)
            if ec is not None:
                return Exc(name, args)
            b = name[9:]
            if b in PURE_BUILTIN:
                fz = [self.freeze(a) for a in args]
                if all(is_c(a) for a in fz) and b in ("abs", "round", "ord", "chr", "divmod", "pow"):
                    import builtins
                    try:
                        return self.from_py(getattr(builtins, b)(*[a.a[0] for a in fz]))
                    except Exception as e:
                        self.raise_(type(e).__name__)
                return T("call", name, *fz)
            if b.startswith(("int.", "str.", "dict.", "list.", "float.", "bytes.")) and args:
                if b.startswith("dict.fromkeys"):
                    d = Dict()
                    for x in self.spread(args[0]):
                        if isinstance(x, Star):
                            d.stars.append((x.value, args[1] if len(args) > 1 else NONE))
                        else:
                            self.dict_set(d, x, args[1] if len(args) > 1 else NONE)
                    return d
                return self.call_method(args[0], b.split(".", 1)[1], args[1:], kw, node)
            if b.startswith("object."):
                meth = b.split(".", 1)[1]
                o = self.deref(args[0])
                if meth == "__getattribute__":
                    return self.raw_getattr_dyn(o, args[1])
                if meth == "__setattr__":
                    self.raw_setattr_dyn(o, args[1], args[2])
                    return NONE
        if name.startswith(PURE_PREFIX) or name in self.opts.pure:
            if name.startswith("math."):
                fz = [self.freeze(a) for a in args]
                if all(is_c(a) for a in fz):
                    try:
                        return C(getattr(math, name[5:])(*[a.a[0] for a in fz]))
                    except Exception as e:
                        self.raise_(type(e).__name__)
            t = T("call", name, *[self.freeze(a) for a in args],
                  *[T("kw", k, self.freeze(v)) for k, v in sorted(kw.items(), key=str)])
            if name in ARRAY_MAKERS:
                self.kindmap.setdefault(t, frozenset([ARRAY_MAKERS[name]]))
            return t
        e = self.event("call", C(name), *args, **{str(k): v for k, v in kw.items()})
        if self.may_raise(["builtins.Exception"], name):
            raise Raise(Exc("builtins.Exception", [], T("exc_of", name)), self.cur)
        r = T("call", name, *[self.freeze(a) for a in args],
              *[T("kw", k, self.freeze(v)) for k, v in sorted(kw.items(), key=str)], T("n", self.fresh("call")))
        e.kw["__ret__"] = r
        return r

    # --- builtins
    def x_builtins__isinstance(self, a, k, n):
        return B(self.isinst(a[0], a[1]))

    def x_builtins__issubclass(self, a, k, n):
        return B(self.issub(a[0], a[1]))

    def x_builtins__len(self, a, k, n):
        v = self.bind_lit(a[0])
        if isinstance(v, View):
            v = v.d
        if isinstance(v, Seq) and not v.has_star():
            if v.kind == "set" and not all(is_c(self.freeze(i)) for i in v.items) and len(v.items) > 1:
                return T("len", self.freeze(v))
            return C(len(v.items))
        if isinstance(v, Dict) and v.base is None and not v.stars:
            return C(sum(1 for _, x in v.entries.values() if x is not Dict.TOMB))
        if isinstance(v, Nt):
            return C(len(v.d.entries))
        if is_str_c(v):
            return C(len(v.a[0]))
        if isinstance(v, T) and v.op == "tuple" and not any(isinstance(x, T) and x.op == "star" for x in v.a):
            return C(len(v.a))
        if isinstance(v, T) and self.kinds(v) is not None and self.kinds(v) <= {"none", "int", "float", "bool"}:
            self.raise_("TypeError", C("len"))
        if isinstance(v, Inst) and v.cls is not None:
            owner, m = self.find_member(v.cls, "__len__")
            if m is not None:
                return self.call(self.func_of(owner, m), [v], {})
        if isinstance(v, Seq) and v.base is not None and len(v.items) == 1:
            return T("len", v.base)
        if isinstance(v, T) and v.op == "ntfields":
            if self.kinds(v.a[0]) == {"nt0"}:
                return C(0)
        vf = self.freeze(v)
        if vf.op in ("cat", "fmt", "strop", "str"):
            L = self.fixed_len(vf)
            if L is not None:
                return C(L)
            m = self.min_len(vf)
            if m:
                self.lo.setdefault(T("len", vf), (m, False))
        return T("len", vf)

    def x_builtins__hasattr(self, a, k, n):
        o = self.bind_lit(a[0])
        nm = self.bind_const(a[1])
        if not is_str_c(nm):
            return B(self.decide(T("hasattr", self.freeze(o), self.freeze(nm))))
        nm = nm.a[0]
        if isinstance(o, T) and o.op not in ("c", "ty", "ext"):
            ks = self.kinds(o)
            if ks is not None and len(ks) == 1 and next(iter(ks)).startswith("inst:"):
                o = self.heapify(o)
            elif nm == "_fields" and ks is not None:
                return B(self.split(o, ["nt", "nt0"]))
            elif nm in ("__dataclass_fields__",) and ks is not None and "class" not in ks and "obj" not in ks:
                return B(self.x_is_dataclass(o))
            elif ks is not None and ks <= {"none", "bool", "int", "float", "str", "dict", "list", "tuple"} and nm.startswith("_") and nm != "__class__":
                return B(nm in ("__doc__", "__eq__", "__hash__"))
            elif o.op == "type":
                pass
            else:
                return B(self.decide(T("hasattr", o, nm)))
        if isinstance(o, Inst) and o.base is not None and o.cls is not None and C(nm) not in o.d.entries:
            f = self.dc_fields(o.cls) or {}
            if nm not in f and self.find_member(o.cls, nm)[1] is None:
                r = self.decide(T("hasattr", o.base, nm))
                return B(r)
        try:
            self.getattr_(o, nm)
            return TRUE
        except Raise as r:
            if self.exc_matches(r.value, ext("builtins.AttributeError")):
                return FALSE
            raise

    def x_builtins__getattr(self, a, k, n):
        nm = self.bind_const(a[1])
        o = self.bind_lit(a[0])
        if not is_str_c(nm):
            if isinstance(o, Inst) and o.cls is not None and self.find_member(o.cls, "__getattribute__")[1] is not None:
                owner, ga = self.find_member(o.cls, "__getattribute__")
                return self.call(self.func_of(owner, ga), [o, nm], {})
            return self.dyn_attr(o, nm)
        if len(a) > 2:
            if isinstance(o, T) and o.op not in ("c", "ty", "ext", "type"):
                ks = self.kinds(o)
                if ks is None or "obj" in ks or "class" in ks:
                    if not self.decide(T("hasattr", o, nm.a[0])):
                        return a[2]
                    return self.getattr_(o, nm.a[0])
            if isinstance(o, Inst) and o.base is not None:
                if not self.truth(self.x_builtins__hasattr([o, nm], {}, n)):
                    return a[2]
            self.try_stack.append(["builtins.AttributeError"])
            try:
                return self.getattr_(o, nm.a[0])
            except Raise as r:
                if self.exc_matches(r.value, ext("builtins.AttributeError")):
                    return a[2]
                raise
            finally:
                self.try_stack.pop()
        return self.getattr_(o, nm.a[0])

    def x_builtins__setattr(self, a, k, n):
        nm = self.bind_const(a[1])
        if is_str_c(nm):
            self.setattr_(a[0], nm.a[0], a[2])
        else:
            o = self.heapify(a[0])
            if isinstance(o, Inst) and o.cls is not None:
                owner, sa = self.find_member(o.cls, "__setattr__")
                if sa is not None:
                    self.call(self.func_of(owner, sa), [o, nm, a[2]], {})
                    return NONE
            if isinstance(o, T):
                i = Inst(None, base=o)
                self.heap[o] = i
                o = i
            self.raw_setattr_dyn(o, nm, a[2])
        return NONE

    def x_builtins__delattr(self, a, k, n):
        self.delattr_(a[0], self.need_name(a[1]))
        return NONE

    def x_builtins__type(self, a, k, n):
        return self.type_of(a[0])

    def x_builtins__repr(self, a, k, n):
        v = self.bind_lit(a[0])
        if is_c(v):
            return C(repr(v.a[0]))
        if isinstance(v, Inst) and v.cls is not None:
            owner, m = self.find_member(v.cls, "__repr__")
            if m is not None:
                return self.call(self.func_of(owner, m), [v], {})
            fields = self.dc_fields(v.cls) if v.base is None and not self.is_enum_class(v.cls) else None
            if fields is not None and v.cls.info.is_dataclass():
                out = [C(v.cls.name + "(")]
                for i, f in enumerate(fields):
                    out += [C(", " * (i > 0) + f + "="), self.x_builtins__repr([self.getattr_(v, f)], {}, None)]
                return self.cat(out + [C(")")])
        if isinstance(v, Seq) and v.kind in ("list", "tuple") and not any(isinstance(x, Star) for x in v.items):
            xs = [self.x_builtins__repr([x], {}, None) for x in v.items]
            one = [C(",")] if v.kind == "tuple" and len(xs) == 1 else []
            sep = [y for x in xs for y in (C(", "), x)][1:]
            return self.cat([C("[" if v.kind == "list" else "(")] + sep + one + [C("]" if v.kind == "list" else ")")])
        if isinstance(v, Dict) and v.base is None and not v.stars:
            xs = [(self.x_builtins__repr([k_], {}, None), self.x_builtins__repr([x], {}, None)) for k_, x in v.entries.values() if x is not Dict.TOMB]
            sep = [y for k_, x in xs for y in (C(", "), k_, C(": "), x)][1:]
            return self.cat([C("{")] + sep + [C("}")])
        return T("repr", self.freeze(v))

    def x_builtins__str(self, a, k, n):
        return self.to_str(a[0]) if a else C("")

    def x_builtins__int(self, a, k, n):
        if not a:
            return C(0)
        v = self.bind_lit(a[0])
        if is_c(v):
            try:
                return C(int(v.a[0], *[x.a[0] for x in a[1:]]))
            except (ValueError, TypeError, OverflowError) as e:
                self.raise_(type(e).__name__, v)
        ks = self.kinds(v)
        if ks == {"int"}:
            return v
        vf = self.freeze(v)
        r = self.str_int(vf)
        if r == "error":
            self.raise_("ValueError", vf)
        if r is not None:
            return r
        if ks is not None and "none" in ks and self.split(v, ["none"]):
            self.raise_("TypeError", v)
        f = self.facts.get(T("intable", vf))
        if f is None and (ks is None or "str" in ks):
            if self.in_handler("builtins.ValueError"):
                f = self.decide(T("intable", vf))
            else:
                f = True
        if f is False:
            self.raise_("ValueError", vf)
        return T("int", vf)

    def x_builtins__float(self, a, k, n):
        if not a:
            return C(0.0)
        v = self.bind_lit(a[0])
        if is_c(v):
            try:
                return C(float(v.a[0]))
            except (ValueError, TypeError, OverflowError) as e:
                self.raise_(type(e).__name__, v)
        ks = self.kinds(v)
        if ks == {"float"}:
            return v
        vf = self.freeze(v)
        if vf.op == "numtext" or vf.op == "str" and self.numeric_text(vf):
            return vf.a[0] if self.kinds(vf.a[0]) == {"float"} else T("float", vf.a[0])
        if self.in_handler("builtins.ValueError") and (ks is None or "str" in ks):
            if not self.decide(T("floatable", vf)):
                self.raise_("ValueError", vf)
        return T("float", vf)

    def x_builtins__bool(self, a, k, n):
        return B(self.truth(a[0])) if a else FALSE

    def x_builtins__print(self, a, k, n):
        self.event("print", *a)
        return NONE

    def x_builtins__breakpoint(self, a, k, n):
        self.event("danger", C("builtins.breakpoint"))
        return NONE

    def x_builtins__input(self, a, k, n):
        self.event("danger", C("builtins.input"))
        return T("call", "builtins.input", self.fresh("call"))

    def x_builtins__range(self, a, k, n):
        a = [self.bind_lit(x) for x in a]
        if all(is_c(x) for x in a):
            try:
                r = range(*[x.a[0] for x in a])
            except TypeError:
                self.raise_("TypeError")
            if len(r) > 60:
                self.imprecise("long range")
            return Seq("gen", [C(i) for i in r])
        start, stop = (C(0), a[0]) if len(a) == 1 else (a[0], a[1])
        step = a[2] if len(a) > 2 else C(1)
        start, stop, step = self.freeze(start), self.freeze(stop), self.freeze(step)
        if start is C(0) and step is C(1) and stop.op == "len":
            i = self.new_idx(stop.a[0])
        else:
            i = T("rng", start, stop, step, self.fresh("rng"))
            self.kindmap[i] = frozenset(["int"])
        self.facts[T("lt", i, stop)] = True
        if step is C(1):
            self.facts[T("lt", i, start)] = False
        return Seq("gen", [Star(i)])

    def x_builtins__enumerate(self, a, k, n):
        start = self.bind_lit(k.get("start", a[1] if len(a) > 1 else C(0)))
        out = []
        i = 0
        for kind, x in self.segments(a[0]):
            if kind == "v":
                out.append(Seq("tuple", [self.binop("+", start, C(i)) if i is not None else T("idx", self.fresh("idx")), x]))
                if i is not None:
                    i += 1
            else:
                e = x()
                ix = None
                if isinstance(e, T) and e.op == "item" and isinstance(e.a[1], T) and e.a[1].op == "idx":
                    ix = e.a[1]
                if ix is None:
                    ix = T("idx", self.fresh("idx"))
                if not (is_c(start) and start.a[0] == 0):
                    ix = self.binop("+", start, ix)
                out.append(Star(Seq("tuple", [ix, e])))
                i = None
        return Seq("gen", out)

    def x_builtins__zip(self, a, k, n):
        segs = [self.segments(x) for x in a]
        if all(all(kd == "v" for kd, _ in s) for s in segs):
            m = min([len(s) for s in segs] or [0])
            return Seq("gen", [Seq("tuple", [s[i][1] for s in segs]) for i in range(m)])
        idx = None
        vals = []
        for s, src in zip(segs, a):
            st = [x for kd, x in s if kd == "star"]
            if len(s) == 1 and st:
                e = st[0]()
                if isinstance(e, T) and e.op == "item" and isinstance(e.a[1], T) and e.a[1].op == "idx":
                    if idx is None:
                        idx = e.a[1]
                    else:
                        ks = self.kindmap.get(e)
                        e = T("item", e.a[0], idx)
                        if ks is not None:
                            self.kindmap.setdefault(e, ks)
                vals.append(e)
            elif not st:
                vals.append(T("item", self.freeze(Seq("list", [x for _, x in s])), T("idx", self.fresh("idx"))))
            else:
                vals.append(T("item", self.freeze(src), T("idx", self.fresh("idx"))))
        return Seq("gen", [Star(Seq("tuple", vals))])

    def x_builtins__map(self, a, k, n):
        out = []
        for kd, x in self.segments(a[1]):
            if len(a) > 2:
                self.imprecise("map of several iterables")
            out.append(self.call(a[0], [x], {}, n) if kd == "v" else Star(self.call(a[0], [x()], {}, n)))
        return Seq("gen", out)

    def x_builtins__filter(self, a, k, n):
        out = []
        for kd, x in self.segments(a[1]):
            e = x if kd == "v" else x()
            ok = self.truth(e) if is_c(a[0]) else self.truth(self.call(a[0], [e], {}, n))
            if ok:
                out.append(e if kd == "v" else Star(e))
        return Seq("gen", out)

    def x_builtins__list(self, a, k, n):
        return Seq("list", self.spread_copy(a[0]) if a else [])

    def spread_copy(self, v):
        v2 = self.bind_lit(v)
        if isinstance(v2, T) and self.kinds(v2) in (frozenset(["list"]), frozenset(["set"])):
            h = self.heapify(v2)
            if isinstance(h, Seq):
                return list(h.items) if not any(isinstance(i, Star) and i.value is None for i in h.items) else self.spread(h)
        return self.spread(v)

    def x_builtins__tuple(self, a, k, n):
        return Seq("tuple", self.spread(a[0]) if a else [])

    def x_builtins__set(self, a, k, n):
        if not a:
            return Seq("set", [])
        items = self.as_items(a[0])
        if items is not None:
            out = []
            for x in items:
                if not any(self.freeze(x) is self.freeze(y) for y in out):
                    out.append(x)
            return Seq("set", out)
        v = self.bind_lit(a[0])
        t = self.set_norm(v) if not isinstance(v, View) else T("setof", self.freeze(v.d) if v.what == "keys" else T(v.what, self.freeze(v.d)))
        self.kindmap.setdefault(t, frozenset(["set"]))
        if isinstance(v, (Seq, View)):
            return Seq("set", self.spread(v))
        return t

    x_builtins__frozenset = x_builtins__set

    def x_builtins__dict(self, a, k, n):
        d = Dict()
        for x in a:
            x = self.bind_lit(x)
            if isinstance(x, (Seq, View)):
                for kd, e in self.segments(x):
                    if kd == "v":
                        self.dict_set(d, self.getitem(e, C(0)), self.getitem(e, C(1)))
                    else:
                        e = e()
                        d.stars.append((self.getitem(e, C(0)), self.getitem(e, C(1))))
            else:
                self.dict_update(d, x)
        for kk, v in k.items():
            if kk == "**":
                self.dict_update(d, v)
            else:
                self.dict_set(d, C(kk), v)
        return d

    def x_builtins__iter(self, a, k, n):
        return Seq("gen", self.spread(a[0]))

    def x_builtins__next(self, a, k, n):
        v = self.deref(a[0])
        if isinstance(v, Seq):
            if v.items and not isinstance(v.items[0], Star):
                return v.items.pop(0)
            if not v.items:
                if len(a) > 1:
                    return a[1]
                self.raise_("StopIteration")
            c = self.choose("next", 2 if len(a) > 1 else 1)
            if c == 0:
                return v.items[0].value if v.items[0].value is not None else T("item", v.base, self.new_idx(v.base))
            return a[1]
        return T("next", self.freeze(v), self.fresh("next"))

    def x_builtins__sorted(self, a, k, n):
        v = self.bind_lit(a[0])
        key = k.get("key")
        rev = self.truth(k["reverse"]) if "reverse" in k else False
        items = self.as_items(v)
        if items is not None:
            if not items:
                return Seq("list", [])
            if all(is_c(self.freeze(x)) for x in items) and (key is None or is_c(key)):
                try:
                    return Seq("list", [C(x) for x in sorted([self.freeze(x).a[0] for x in items], reverse=rev)])
                except TypeError:
                    self.raise_("TypeError")
            if len(items) == 1:
                return Seq("list", items)
            kf = [self.call(key, [x], {}, n) if key is not None and not is_c(key) else x for x in items]
            order = list(range(len(items)))
            # insertion sort over abstract comparisons
            out = []
            for i in order:
                j = len(out)
                while j > 0 and (self.order("__lt__", kf[i], kf[out[j - 1]]) if not rev else self.order("__lt__", kf[out[j - 1]], kf[i])):
                    j -= 1
                out.insert(j, i)
            return Seq("list", [items[i] for i in out])
        kt = NONE
        g = self.generic_elem(v)
        if key is not None and not is_c(key):
            kt = self.freeze(self.call(key, [g], {}, n))
        t = T("sorted", self.freeze(v), self.freeze(g), kt, rev)
        self.tags[("sortedelem", t)] = g
        return Seq("list", [Star(T("sitem", t, self.freeze(g)) if False else g)], base=t)

    def generic_elem(self, v):
        for kd, x in self.segments(v):
            return x if kd == "v" else x()
        return NONE

    def minmax(self, name, a, k, n):
        items = list(a) if len(a) > 1 else self.as_items(a[0])
        key = k.get("key")
        if items is not None:
            if not items:
                if "default" in k:
                    return k["default"]
                self.raise_("ValueError")
            kf = [self.call(key, [x], {}, n) if key is not None and not is_c(key) else x for x in items]
            best = 0
            for i in range(1, len(items)):
                if name == "max":
                    if self.order("__gt__", kf[i], kf[best]):
                        best = i
                elif self.order("__lt__", kf[i], kf[best]):
                    best = i
            return items[best]
        g = self.generic_elem(a[0])
        kt = self.freeze(self.call(key, [g], {}, n)) if key is not None and not is_c(key) else NONE
        v = self.deref(a[0])
        if isinstance(v, Seq) and v.has_star() or isinstance(v, T):
            if "default" in k:
                if not self.decide(T("truth", self.freeze(v))):
                    return k["default"]
        t = T("best", name, self.freeze(a[0]), self.freeze(g), kt)
        ks = self.kinds(g)
        if ks is not None:
            self.kindmap.setdefault(t, ks)
        return t

    def x_builtins__max(self, a, k, n):
        return self.minmax("max", a, k, n)

    def x_builtins__min(self, a, k, n):
        return self.minmax("min", a, k, n)

    def x_builtins__sum(self, a, k, n):
        items = self.as_items(a[0])
        if items is not None:
            r = a[1] if len(a) > 1 else C(0)
            for x in items:
                r = self.binop("+", r, x)
            return r
        return T("call", "builtins.sum", self.freeze(a[0]))

    def quant_seq(self, name, a):
        want = name == "any"
        for kd, x in self.segments(a[0]):
            if kd == "v":
                if self.truth(x) == want:
                    return B(want)
            else:
                c = self.choose(name, 3)
                if c == 2:
                    self.notes.append(("vacuous", name, self.cur[1]))
                    continue
                t = self.truth(x())
                if c == 1:
                    if t != want:
                        raise Stop("infeasible quantifier")
                    return B(want)
                if t == want:
                    raise Stop("infeasible quantifier")
        return B(not want)

    def x_builtins__any(self, a, k, n):
        return self.quant_seq("any", a)

    def x_builtins__all(self, a, k, n):
        return self.quant_seq("all", a)

    def x_builtins__reversed(self, a, k, n):
        items = self.spread(a[0])
        return Seq("gen", list(reversed(items)))

    def x_builtins__open(self, a, k, n):
        return self.open_(self.pkey(a[0]), a[1:], k)

    def x_builtins__super(self, a, k, n):
        return Super(self.deref(a[0]), a[1])

    def x_builtins__vars(self, a, k, n):
        return self.getattr_(a[0], "__dict__")

    def x_builtins__object(self, a, k, n):
        o = Inst(None)
        return o

    # --- os / files
    def x_os__path__join(self, a, k, n):
        return self.path_join(a[0], *a[1:]).a[0]

    def x_os__fspath(self, a, k, n):
        return self.to_str(a[0])

    def x_os__rename(self, a, k, n):
        self.rename(self.pkey(a[0]), self.pkey(a[1]))
        return NONE

    x_os__replace = x_os__rename
    x_os__renames = x_os__rename

    def x_shutil__move(self, a, k, n):
        self.rename(self.pkey(a[0]), self.pkey(a[1]), "move")
        return self.freeze(a[1])

    def fs_op(self, op, a):
        if self.may_raise(["builtins.OSError"], op):
            raise Raise(Exc("builtins.OSError", [], T("oserr")), self.cur)
        ps = [self.pkey(x) for x in a]
        if op != "mkdir":
            self.point(op, (lambda: self.partial_remove(ps[0])) if op == "rmtree" else
                       (lambda: self.partial_copy(ps[0], ps[1], False)) if op == "copy" else None)
        self.event(op, *ps)
        if op in ("rmtree", "unlink"):
            self.fs_remove(ps[0])
        elif op == "mkdir":
            self.events.pop()
            self.fs_mkdir(ps[0])
        else:
            if op == "copy":
                for q in list(self.vfs):
                    if prefix_of(ps[0], q):
                        self.vfs[rebase(q, ps[0], ps[1])] = self.vfs[q]
            self.fs_change(*ps)
        return NONE

    def x_shutil__rmtree(self, a, k, n):
        return self.fs_op("rmtree", a[:1])

    def x_shutil__copytree(self, a, k, n):
        return self.fs_op("copy", a[:2])

    x_shutil__copy = x_shutil__copytree
    x_shutil__copy2 = x_shutil__copytree
    x_shutil__copyfile = x_shutil__copytree

    def x_os__remove(self, a, k, n):
        return self.fs_op("unlink", a[:1])

    x_os__unlink = x_os__remove

    def x_os__rmdir(self, a, k, n):
        return self.fs_op("rmtree", a[:1])

    def x_os__makedirs(self, a, k, n):
        return self.fs_op("mkdir", a[:1])

    x_os__mkdir = x_os__makedirs

    def x_os__path__exists(self, a, k, n):
        return self.path_method(T("P", self.pkey(a[0])), "exists", [], {})

    def x_os__path__isdir(self, a, k, n):
        return self.path_method(T("P", self.pkey(a[0])), "is_dir", [], {})

    def x_os__path__isfile(self, a, k, n):
        return self.path_method(T("P", self.pkey(a[0])), "is_file", [], {})

    def x_os__path__basename(self, a, k, n):
        return self.path_attr(T("P", self.pkey(a[0])), "name")

    def x_os__path__dirname(self, a, k, n):
        return self.pkey(T("parent", self.pkey(a[0])))

    def x_os__path__abspath(self, a, k, n):
        return self.pkey(a[0])

    x_os__path__realpath = x_os__path__abspath
    x_os__path__normpath = x_os__path__abspath

    def x_os__listdir(self, a, k, n):
        kn = self.fs_children(self.pkey(a[0]))
        self.event("listdir", self.pkey(a[0]))
        if kn is not None:
            return Seq("list", [self.path_attr(T("P", x), "name") for x in kn])
        l = T("listdir", self.pkey(a[0]))
        i = self.new_idx(l)
        e = T("basename", T("item", l, i))
        return Seq("list", [Star(e)])

    def x_os__scandir(self, a, k, n):
        kn = self.fs_children(self.pkey(a[0]))
        self.event("listdir", self.pkey(a[0]))
        if kn is not None:
            return Seq("gen", [T("P", x) for x in kn])
        l = T("listdir", self.pkey(a[0]))
        e = T("item", l, self.new_idx(l))
        self.kindmap[e] = frozenset(["path"])
        return Seq("gen", [Star(e)])

    def x_os__environ__get(self, a, k, n):
        if self.contains(ext("os.environ"), a[0]):
            t = T("env", self.freeze(a[0]))
            self.kindmap[t] = frozenset(["str"])
            return t
        return a[1] if len(a) > 1 else NONE

    x_os__getenv = x_os__environ__get

    def x_tempfile__TemporaryDirectory(self, a, k, n):
        extra = []
        if "dir" in k:
            extra.append(T("kw", "dir", self.pkey(k["dir"])))
        i = self.fresh("tmp")
        self.event("tmpdir", T("tmpdir", i, *extra))
        return T("tmpcm", i, *extra)

    def x_tempfile__mkdtemp(self, a, k, n):
        extra = [T("kw", "dir", self.pkey(k["dir"]))] if "dir" in k else []
        t = T("tmpdir", self.fresh("tmp"), *extra)
        self.event("tmpdir", t)
        return t

    def x_pathlib__Path(self, a, k, n):
        if not a:
            return T("P", C("."))
        v = self.bind_lit(a[0])
        ks = self.kinds(v)
        if isinstance(v, T) and ks is not None and len(ks) > 1:
            if "none" in ks and self.split(v, ["none"]):
                self.raise_("TypeError")
        if is_c(v) and v.a[0] is None:
            self.raise_("TypeError")
        return T("P", self.pkey(self.path_join(v, *a[1:]) if len(a) > 1 else self.pkey(v)))

    x_pathlib__PurePath = x_pathlib__Path

    def x_uuid__uuid4(self, a, k, n):
        return T("uuid", self.fresh("uuid"))

    def x_sys__exit(self, a, k, n):
        self.event("exit", *a)
        raise Raise(Exc("builtins.SystemExit", a), self.cur)

    x_builtins__exit = x_sys__exit
    x_builtins__quit = x_sys__exit

    # --- serialisation libraries
    def x_pyron__load(self, a, k, n):
        p = self.pkey(a[0])
        if self.fs_known("exists", p) is None and self.may_raise(["builtins.FileNotFoundError"], "pyron.load"):
            self.raise_("FileNotFoundError", p)
        self.event("load", p, **k)
        c = self.fs_read(p)
        if c is not None:
            v = self.load_content(self.bind_lit(c), k)
            if v is not None:
                return v
        t = T("pyronload", p, *[T("kw", x, self.freeze(v)) for x, v in sorted(k.items())])
        self.kindmap.setdefault(t, DOC_KINDS)
        return t

    def x_pyron__loads(self, a, k, n):
        key = ("parse fails", self.freeze(a[0]), tuple((x, self.freeze(v)) for x, v in sorted(k.items())))
        if self.tags.get(key) is None:      # parsing the same text again has the same outcome
            fails = self.may_raise(["builtins.ValueError"], "pyron.loads")
            self.tags[key] = fails
        if self.tags[key]:
            self.raise_("ValueError", a[0])
        self.event("parse", a[0], **k)
        v = self.load_content(self.bind_lit(a[0]), k)
        if v is not None:
            return v
        t = T("pyronloads", self.freeze(a[0]), *[T("kw", x, self.freeze(v)) for x, v in sorted(k.items())])
        self.kindmap.setdefault(t, DOC_KINDS | {"nt", "nt0"} if "preserve_structs" in k else DOC_KINDS)
        return t

    def x_pyron__to_string(self, a, k, n):
        self.ser_point("pyron.to_string")
        self.event("serialize", C("pyron.to_string"), a[0])
        t = T("ron", self.freeze(a[0]))
        self.kindmap.setdefault(t, frozenset(["str"]))
        self.tags[("ron", t)] = a[0]
        return t

    def x_msgpack__packb(self, a, k, n):
        self.ser_point("msgpack")
        self.event("serialize", C("msgpack.packb"), a[0], **k)
        t = T("packb", self.freeze(a[0]), *[T("kw", x, self.freeze(v)) for x, v in sorted(k.items())])
        self.kindmap.setdefault(t, frozenset(["bytes"]))
        self.tags[("packb", t)] = (a[0], k.get("default"))
        return t

    x_msgpack__dumps = x_msgpack__packb

    def x_msgpack__pack(self, a, k, n):
        self.ser_point("msgpack")
        self.event("serialize", C("msgpack.packb"), a[0], **k)
        f = self.freeze(a[1])
        t = T("packb", self.freeze(a[0]), *[T("kw", x, self.freeze(v)) for x, v in sorted(k.items())])
        self.tags[("packb", t)] = (a[0], k.get("default"))
        self.fs_write(f.a[0] if f.op == "file" else f, t)
        return NONE

    x_msgpack__dump = x_msgpack__pack

    def x_msgpack__unpack(self, a, k, n):
        f = self.freeze(a[0])
        src = T("read", f.a[0]) if f.op == "file" else f
        if f.op == "file":
            c = self.fs_read(f.a[0])
            if c is not None:
                src = self.freeze(c)
        self.event("unpack", src, **k)
        if any(x.op == "partial" for x in subterms(src)):
            self.raise_("ValueError", C("truncated msgpack"))
        r = self.mp_load(src, k)
        if r is not None:
            return r
        return T("unpack", src, *[T("kw", x, self.freeze(v)) for x, v in sorted(k.items())])

    x_msgpack__unpackb = x_msgpack__unpack
    x_msgpack__load = x_msgpack__unpack
    x_msgpack__loads = x_msgpack__unpack

    # --- dataclasses, typing, inspect
    def x_is_dataclass(self, v):
        v = self.bind_lit(v)
        if isinstance(v, ClassObj):
            return self.is_dataclass_cls(v)
        if isinstance(v, Inst):
            return v.cls is not None and self.is_dataclass_cls(v.cls)
        if isinstance(v, (Seq, Dict, Nt, Func, Bound, Exc)):
            return False
        if isinstance(v, T):
            if v.op in ("c", "ext", "ty", "type"):
                return False
            ks = self.kinds(v)
            if ks is None:
                return self.decide(T("isdc", v))
            yes, maybe = set(), set()
            for k in ks:
                if k == "dc":
                    yes.add(k)
                elif k in ("class", "obj"):
                    maybe.add(k)
                elif k.startswith("inst:"):
                    co = self.class_by_qual(k[5:])
                    if co is None:
                        maybe.add(k)
                    elif self.is_dataclass_cls(co):
                        yes.add(k)
                    elif not any(isinstance(c, T) for c in self.mro(co)) and self.dc_fields(co) is None:
                        maybe.add(k)
                    else:
                        maybe.add(k)
            if not maybe:
                return self.split(v, yes, "isdc")
            if self.split(v, yes | maybe, "isdc?"):
                if self.kinds(v) <= yes:
                    return True
                return self.decide(T("isdc", v))
            return False
        return False

    def x_dataclasses__is_dataclass(self, a, k, n):
        return B(self.x_is_dataclass(a[0]))

    def x_dataclasses__fields(self, a, k, n):
        v = self.deref(a[0])
        co = v.cls if isinstance(v, Inst) else v
        if isinstance(co, ClassObj):
            f = self.dc_fields(co)
            if f is not None:
                return Seq("tuple", list(f.values()))
            self.raise_("TypeError")
        d = T("attr", self.freeze(v), "__dataclass_fields__")
        self.refine(d, ["dict"])
        return View(self.heapify(d), "values")

    def x_dataclasses__field(self, a, k, n):
        return T("call", "dataclasses.field", *[T("kw", x, self.freeze(v)) for x, v in sorted(k.items())])

    def x_dataclasses__replace(self, a, k, n):
        v = self.heapify(a[0])
        if isinstance(v, Inst) and v.cls is not None:
            f = self.dc_fields(v.cls)
            if f is None:
                self.raise_("TypeError")
            kw = {}
            for nm in f:
                kw[nm] = k[nm] if nm in k else self.getattr_(v, nm)
            for nm in k:
                if nm not in f:
                    self.raise_("TypeError", C("unexpected argument"))
            return self.construct(v.cls, [], kw, n)
        return T("replace", self.freeze(v), *[T("kw", x, self.freeze(y)) for x, y in sorted(k.items())])

    def x_dataclasses__dataclass(self, a, k, n):
        return a[0] if a else Native("dataclass", lambda x, y: x[0])

    def x_inspect__isclass(self, a, k, n):
        v = self.bind_lit(a[0])
        if isinstance(v, ClassObj):
            return TRUE
        if isinstance(v, T):
            if v.op == "ext":
                s = v.a[0].rsplit(".", 1)[-1]
                return B(v.a[0].startswith("builtins.") and s in BUILTIN_CLASSES | {"NoneType"} or ext_exc_class(v.a[0]) is not None
                         or v.a[0] in ("pathlib.Path", "numpy.ndarray", "enum.Enum", "torch.Tensor"))
            if v.op in ("ty", "c"):
                return FALSE
            return B(self.decide(T("isclass", v)))
        return FALSE

    def x_typing__get_origin(self, a, k, n):
        v = self.bind_lit(a[0])
        if isinstance(v, T) and v.op == "ty":
            return self.ty_attr(v, "__origin__")
        if isinstance(v, (ClassObj,)) or (isinstance(v, T) and v.op in ("ext", "c")):
            return NONE
        return T("call", "typing.get_origin", self.freeze(v))

    def x_typing__get_args(self, a, k, n):
        v = self.bind_lit(a[0])
        if isinstance(v, T) and v.op == "ty":
            return self.ty_attr(v, "__args__")
        if isinstance(v, ClassObj) or (isinstance(v, T) and v.op in ("ext", "c")):
            return Seq("tuple", [])
        return T("call", "typing.get_args", self.freeze(v))

    def x_typing__cast(self, a, k, n):
        return a[1]

    def x_typing__TypeVar(self, a, k, n):
        return T("typevar", self.freeze(a[0]))

    def x_copy__copy(self, a, k, n):
        return self.clone(a[0])

    def x_copy__deepcopy(self, a, k, n):
        return self.clone(a[0], True)

    def x_functools__partial(self, a, k, n):
        return Partial(a[0], a[1:], k)

    def x_functools__wraps(self, a, k, n):
        return Native("wraps", lambda x, y: x[0])

    def x_functools__reduce(self, a, k, n):
        acc = a[2] if len(a) > 2 else None
        for kd, x in self.segments(a[1]):
            if kd != "v":
                self.imprecise("reduce")
            acc = x if acc is None else self.call(a[0], [acc, x], {}, n)
        return acc

    def x_collections__namedtuple(self, a, k, n):
        name = self.freeze(a[0])

        def make(args, kw):
            d = Dict()
            names = self.as_items(a[1]) if not isinstance(self.deref(a[1]), View) else self.view_keys(self.deref(a[1]))
            for i, x in enumerate(args):
                if names is None or i >= len(names):
                    self.imprecise("namedtuple")
                self.dict_set(d, names[i], x)
            rest = kw.pop("**", None)
            for kk, v in kw.items():
                self.dict_set(d, C(kk) if isinstance(kk, str) else kk, v)
            if isinstance(rest, Dict):
                for kk, vv in rest.stars:
                    d.stars.append((kk, vv))
                d.base = rest.base
            return Nt(name, d)
        return Native("ntcls", make)

    def view_keys(self, v):
        if v.what == "keys" and v.d.base is None and not v.d.stars:
            return [k for k, x in v.d.entries.values() if x is not Dict.TOMB]
        return None

    def x_collections__defaultdict(self, a, k, n):
        self.imprecise("defaultdict")

    def x_itertools__chain(self, a, k, n):
        out = []
        for x in a:
            out.extend(self.spread(x))
        return Seq("gen", out)

    def x_contextlib__suppress(self, a, k, n):
        return T("call", "contextlib.suppress", *[self.freeze(x) for x in a])

    # --- numpy
    def x_numpy__dtype(self, a, k, n):
        f = self.freeze(a[0])
        if f.op == "attr" and f.a[1] == "str" and f.a[0].op == "attr" and f.a[0].a[1] == "dtype":
            return f.a[0]
        return T("call", "numpy.dtype", f)

    def x_click__secho(self, a, k, n):
        self.event("print", *a)
        return NONE

    x_click__echo = x_click__secho

    def x_docstring_parser__parse(self, a, k, n):
        d = self.freeze(a[0])
        if not is_str_c(d):
            return T("call", "docstring_parser.parse", d)
        import re
        ps = []
        for m in re.finditer(r":param (\w+):[ ]*(.*(?:\n(?!\s*:).*\S.*)*)", d.a[0]):
            o = Inst(None)
            desc = " ".join(m.group(2).split())
            for kk, v in (("arg_name", C(m.group(1))), ("description", C(desc) if desc else NONE)):
                o.d.entries[C(kk)] = (C(kk), v)
            ps.append(o)
        o = Inst(None)
        o.d.entries[C("params")] = (C("params"), Seq("list", ps))
        return o

    def x_traceback__print_exc(self, a, k, n):
        self.event("print", C("traceback"))
        return NONE

    def x_warnings__warn(self, a, k, n):
        self.event("print", *a)
        return NONE
