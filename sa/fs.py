"""Abstract file system: effects, existence facts, and the contents written on the current trace."""
import errno
from . import ron
from .terms import *
from .engine import Raise, Stop


class Crash(Stop):
    """The process dies here (power stays on): the effects so far persist."""
    def __init__(self, what, where):
        Stop.__init__(self, "crash")
        self.what, self.where = what, where


def prefix_of(a, b):
    """Is path term a an ancestor of (or equal to) path term b?"""
    if a is b:
        return True
    if b.op != "join":
        return False
    aa = a.a if a.op == "join" else (a,)
    return len(aa) < len(b.a) and b.a[:len(aa)] == tuple(aa)


def rebase(p, src, dst):
    if p is src:
        return dst
    n = len(src.a) if src.op == "join" else 1
    rest = p.a[n:]
    head = list(dst.a) if dst.op == "join" else [dst]
    return T("join", *(head + list(rest)))


def root(p):
    return p.a[0] if p.op == "join" else p


def in_tmp(p):
    return root(p).op == "tmpdir" and not any(isinstance(x, T) and x.op == "kw" for x in root(p).a)


class FsMixin:
    def fs_init(self):
        self.vfs = {}         # path -> content value (as written)
        self.vdirs = {}       # directories known to exist; value: True if created empty on this trace
        self.vgone = []       # path prefixes removed
        self.crash_armed = False
        self.fault_armed = False
        self.ser_armed = False
        self.effects = 0

    def ser_point(self, what):
        """A possible failure of the serialization library (a value it does not support)."""
        if self.ser_armed and self.choose("serialization fails", 2):
            self.ser_armed = False
            raise Raise(Exc("builtins.ValueError", [C("Unsupported type in " + what)]), self.cur)

    def point(self, what, partial=None):
        """A possible crash point: just before the effect, or (partial) in the middle of it."""
        if self.fault_armed:
            self.effects += 1
            c = self.choose("fault", 3 if partial is not None else 2)
            if c:
                self.fault_armed = False
                if c == 2:
                    partial()
                w = "error %s %s" % ("before" if c == 1 else "during", what)
                self.event("fault", C(w))
                self.fault = (w, self.cur)
                raise Raise(Exc("builtins.OSError", [C("No space left on device")], T("errno", C(errno.ENOSPC))), self.cur)
            return
        if not self.crash_armed:
            return
        self.effects += 1
        c = self.choose("crash", 3 if partial is not None else 2)
        if c == 0:
            return
        w = "%s %s" % ("before" if c == 1 else "during", what)
        if c == 2:
            partial()
        self.event("crash", C(w))
        raise Crash(w, self.cur)

    def partial_remove(self, p):
        """rmtree interrupted: some file of the tree is already gone"""
        fs = [q for q in self.vfs if prefix_of(p, q)]
        if fs:
            q = fs[self.choose("rmtree victim", len(fs))]
            del self.vfs[q]
            self.vgone.append(q)
        self.fs_change(p)

    def partial_copy(self, src, dst, move):
        """copy interrupted: the target exists and some of the files are missing or truncated"""
        if move and self.choose("move interrupted", 2):
            for q in list(self.vfs):
                if prefix_of(src, q):
                    self.vfs[rebase(q, src, dst)] = self.vfs[q]
            return self.partial_remove(src)
        fs = [q for q in self.vfs if prefix_of(src, q)]
        self.vdirs[dst] = self.fs_known("exists", dst) is False
        self.vgone = [g for g in self.vgone if g is not dst]
        n = self.choose("files copied", len(fs)) if fs else 0
        for i, q in enumerate(fs[:n + 1]):
            self.vfs[rebase(q, src, dst)] = self.vfs[q] if i < n else T("partial", self.freeze(self.vfs[q]))
        self.fs_change(dst)

    # ---------------------------------------------------------------- queries
    def fs_known(self, op, p):
        if p in self.vfs:
            return op != "isdir"
        if p in self.vdirs:
            return op != "isfile"
        if any(prefix_of(p, q) for q in list(self.vfs) + list(self.vdirs)):
            return op != "isfile"
        if p.op == "tmpdir":
            return not any(prefix_of(g, p) for g in self.vgone) and op != "isfile"
        for g in self.vgone:
            if prefix_of(g, p):
                return False
        for d, fresh in self.vdirs.items():
            if fresh and prefix_of(d, p):
                return False
        if in_tmp(p):
            return False
        return None

    def fs_query(self, op, p):
        r = self.fs_known(op, p)
        if r is not None:
            return B(r)
        e = self.fs_epoch
        if p.op == "item" and p.a[0].op == "listdir" and op == "exists":
            return TRUE
        if op == "exists":
            for o in ("isdir", "isfile"):
                if self.facts.get(T(o, p, e)):
                    return TRUE
        elif self.facts.get(T("exists", p, e)) is False:
            return FALSE
        elif self.facts.get(T("isdir" if op == "isfile" else "isfile", p, e)):
            return FALSE
        return B(self.decide(T(op, p, e)))

    def fs_change(self, *paths):
        if paths and all(in_tmp(p) for p in paths):
            return
        self.fs_epoch += 1

    def fs_children(self, p):
        """entries of a directory whose whole content is known, in an arbitrary fixed order"""
        if self.vdirs.get(p) is not True and p.op != "tmpdir":
            return None
        n = len(p.a) if p.op == "join" else 1
        out = []
        for q in list(self.vfs) + list(self.vdirs):
            if q is not p and prefix_of(p, q):
                c = T("join", *q.a[:n + 1])
                if c not in out:
                    out.append(c)
        hook = getattr(self, "listing_hook", None)
        return hook(p, out) if hook else out

    def glob_match(self, name, pat):
        """fnmatch of a name template against 'prefix*' patterns"""
        if pat == "*":
            return True
        if pat.count("*") == 1 and not set(pat) & set("?[") and not pat.startswith("*"):
            a, b = pat.split("*")
            r = self.truth(self.str_method(name, "startswith", [C(a)], {}))
            return r and (not b or self.truth(self.str_method(name, "endswith", [C(b)], {})))
        return None

    # ---------------------------------------------------------------- effects
    def fs_mkdir(self, p):
        self.point("mkdir")
        self.event("mkdir", p)
        known = self.fs_known("exists", p)
        if known is not True:
            self.vdirs[p] = known is False
        self.vgone = [g for g in self.vgone if g is not p]
        self.fs_change(p)

    def fs_create(self, p, content):
        self.vfs[p] = content
        self.vgone = [g for g in self.vgone if g is not p]
        self.fs_change(p)

    def fs_remove(self, p):
        for t in (self.vfs, self.vdirs):
            for q in list(t):
                if prefix_of(p, q):
                    del t[q]
        self.vgone.append(p)
        self.fs_change(p)

    def fs_rename(self, src, dst):
        moved, mdirs = {}, {}
        for t, m in ((self.vfs, moved), (self.vdirs, mdirs)):
            for q in list(t):
                if prefix_of(src, q):
                    m[rebase(q, src, dst)] = t.pop(q)
        self.vgone.append(src)
        self.vgone = [g for g in self.vgone if not prefix_of(dst, g) and not prefix_of(g, dst) or g is src]
        self.vfs.update(moved)
        self.vdirs.update(mdirs)
        if not moved and not mdirs:
            self.vdirs.setdefault(dst, False)
        self.fs_change(src, dst)

    def rename(self, src, dst, what="rename"):
        if self.may_raise(["builtins.OSError"], what):
            self.event(what + "_failed", src, dst)
            raise Raise(Exc("builtins.OSError", [], T("oserr")), self.cur)
        real = what
        if what == "move":
            if self.fs_known("isdir", dst):
                dst = self.mkjoin(dst, self.path_attr(T("P", src), "name"))
            if self.cross_device(src, dst):
                real = "copying move"
        elif self.cross_device(src, dst):
            raise Raise(Exc("builtins.OSError", [C("Invalid cross-device link")], T("errno", C(errno.EXDEV))), self.cur)
        if self.fs_known("isdir", dst) and self.fs_nonempty(dst) and what != "move":
            raise Raise(Exc("builtins.OSError", [C("Directory not empty")], T("errno", C(errno.ENOTEMPTY))), self.cur)
        self.point(what, (lambda: self.partial_copy(src, dst, True)) if real != what else None)
        self.event(what, src, dst)
        self.fs_rename(src, dst)

    def cross_device(self, a, b):
        """may the temporary directory live on another file system than everything else"""
        return in_tmp(a) != in_tmp(b) and self.decide(T("tmp is on another device"))

    def fs_nonempty(self, p):
        return any(q is not p and prefix_of(p, q) for q in list(self.vfs) + list(self.vdirs))

    def open_(self, path, args, kw):
        mode = args[0] if args else kw.get("mode", C("r"))
        mode = self.bind_const(mode)
        parent = path.a[:-1] if isinstance(path, T) and path.op == "join" else None
        parent = parent and (parent[0] if len(parent) == 1 else T("join", *parent))
        known = self.fs_known("exists", path) is True or parent in self.vdirs and is_str_c(mode) and any(ch in mode.a[0] for ch in "wxa")
        if not known and self.may_raise(["builtins.FileNotFoundError"], "open"):
            self.raise_("FileNotFoundError", path)
        self.event("open", path, mode)
        if is_str_c(mode) and any(ch in mode.a[0] for ch in "wxa+"):
            self.point("open for writing")
        if is_str_c(mode) and any(ch in mode.a[0] for ch in "wx"):
            self.fs_create(path, C(""))
        elif is_str_c(mode) and any(ch in mode.a[0] for ch in "a+"):
            self.vfs[path] = T("appended", path, self.fresh("app"))
            self.fs_change(path)
        elif not is_str_c(mode) or "r" in mode.a[0]:
            if self.fs_known("exists", path) is False:
                self.raise_("FileNotFoundError", path)
        return T("file", path, self.freeze(mode), self.fresh("file"))

    def fs_write(self, p, v, how="write"):
        self.event(how, p, v)
        old = self.vfs.get(p)

        def partial():
            self.vfs[p] = T("partial", self.freeze(v))
        self.point("write", partial)
        self.vfs[p] = v if old is None or old is C("") else T("cat", self.freeze(old), self.freeze(v))

    def fs_read(self, p):
        """content of a file: known value or a read term"""
        v = self.vfs.get(p)
        if v is not None:
            return v
        if self.fs_known("exists", p) is False:
            self.raise_("FileNotFoundError", p)
        return None

    # ---------------------------------------------------------------- documents
    def doc_image(self, v, names=False, structs=False):
        """pyron.loads(pyron.to_string(v)): axioms on the serialisation library."""
        v = self.bind_lit(v)
        go = lambda x: self.doc_image(x, names, structs)
        if isinstance(v, T):
            if v.op == "tuple":
                return Seq("tuple", [go(x) for x in v.a]) if v.a else NONE
            if v.op == "list":
                return Seq("list", [go(x) for x in v.a])
            ks = self.kinds(v)
            if ks is None:
                self.imprecise("document of unknown kind %s" % show(v)[:60])
            if ks <= {"none", "bool", "int", "float", "str"}:
                return v
            if len(ks) == 1 and ks <= {"list", "dict"}:
                return self.doc_image(self.heapify(v), names, structs)
            self.imprecise("document %s of kinds %s" % (show(v)[:60], sorted(ks)))
        if isinstance(v, Nt):
            d = Dict()
            for k, x in v.d.entries.values():
                d.entries[self.freeze(k)] = (k, go(x))
            d.stars = [(k, go(x)) for k, x in v.d.stars]
            if structs:
                return Nt(v.name, d)
            if names:
                d.entries[C("!__name__")] = (C("!__name__"), v.name)
            return d
        if isinstance(v, Dict):
            d = Dict()
            d.entries = {k: (kk, go(x)) for k, (kk, x) in v.entries.items() if x is not Dict.TOMB}
            d.stars = [(k, go(x)) for k, x in v.stars]
            if v.base is not None:
                if any(x is Dict.TOMB for _, x in v.entries.values()):
                    self.imprecise("document with deleted entries")
                d.base = v.base
            return d
        if isinstance(v, Seq):
            if v.kind == "tuple" and not v.items:
                return NONE
            if v.kind not in ("tuple", "list"):
                self.raise_("TypeError", C("not serialisable"))
            if v.base is not None and len(v.items) == 1 and isinstance(v.items[0], Star) and v.items[0].value is None:
                return Seq(v.kind, [Star(None)], base=v.base)
            return Seq(v.kind, [Star(go(x.value)) if isinstance(x, Star) else go(x) for x in v.items])
        if isinstance(v, Inst) and v.cls is not None:
            if self.is_enum_class(v.cls):
                self.imprecise("enum member in a document")
            self.imprecise("instance in a document")
        self.imprecise("document %r" % (v,))

    def load_content(self, c, k):
        """value of pyron.load(s) on known content"""
        if isinstance(c, T) and any(x.op == "partial" for x in subterms(c)) or is_str_c(c) and not c.a[0].strip():
            self.raise_("ValueError", C("truncated document"))
        names = self.truthy_kw(k, "preserve_class_names")
        structs = self.truthy_kw(k, "preserve_structs")
        if is_str_c(c):
            try:
                return self.doc_image(ron.parse(c.a[0]), names, structs)
            except ValueError as e:
                self.raise_("ValueError", C(str(e)))
        if isinstance(c, T) and c.op == "ron":
            raw = self.tags.get(("ron", c))
            return self.doc_image(raw if raw is not None else c.a[0], names, structs)
        return None

    def truthy_kw(self, k, n):
        v = k.get(n)
        return v is not None and self.truth(v)

    # ---------------------------------------------------------------- msgpack
    def mp_image(self, v, default, hook, strict):
        """msgpack.unpackb(msgpack.packb(v, default=..), object_hook=.., strict_map_key=..): axioms."""
        v = self.bind_lit(v)
        go = lambda x: self.mp_image(x, default, hook, strict)
        plain = {"none", "bool", "int", "float", "str", "bytes"}
        if isinstance(v, T):
            if v.op in ("tuple", "list"):
                return Seq("list", [go(x) for x in v.a])
            ks = self.kinds(v)
            if ks is None:
                if self.tags.get(("mpleaf", v)):
                    return v
                u = v.a[0] if v.op == "slice" else v
                if u.op == "attr" and u.a[1] == "shape":
                    return v        # a tuple of ints: a list after unpacking, equal as an index
                if v.op in ("attr", "mcall", "call"):
                    return v
                self.imprecise("packed value of unknown kind %s" % show(v)[:60])
            if ks <= plain:
                return v
            if len(ks) == 1 and ks <= {"list", "dict"}:
                h = self.heapify(v)
                if isinstance(h, Seq) and h.base is v and len(h.items) == 1 and isinstance(h.items[0], Star) and h.items[0].value is None:
                    return v
                return go(h)
            if default is None or is_c(default):
                self.raise_("TypeError", C("can not serialize"))
            r = self.call(default, [v], {})
            if self.freeze(r) is v:
                self.raise_("TypeError", C("can not serialize"))
            return go(r)
        if isinstance(v, Dict):
            d = Dict()
            for kf, (k, x) in v.entries.items():
                if x is Dict.TOMB:
                    continue
                if strict and not (self.kinds(k) or {"?"}) <= {"str", "bytes"}:
                    self.raise_("ValueError", C("map key is not allowed with strict_map_key"))
                d.entries[kf] = (k, go(x))
            if v.stars or v.base is not None:
                self.imprecise("packed open dict")
            if hook is not None and not is_c(hook):
                return self.call(hook, [d], {})
            return d
        if isinstance(v, Seq):
            if v.kind not in ("list", "tuple"):
                if default is None or is_c(default):
                    self.raise_("TypeError", C("can not serialize"))
                r = self.call(default, [v], {})
                if r is v:
                    self.raise_("TypeError", C("can not serialize"))
                return go(r)
            return Seq("list", [Star(go(x.value)) if isinstance(x, Star) else go(x) for x in v.items], base=v.base)
        if isinstance(v, (Inst, Nt)):
            if isinstance(v, Nt):
                return Seq("list", [go(x) for _, x in v.d.entries.values()])
            if default is None:
                self.raise_("TypeError", C("can not serialize"))
            r = self.call(default, [v], {})
            if r is v:
                self.raise_("TypeError", C("can not serialize"))
            return go(r)
        self.imprecise("packed %r" % (v,))

    def mp_load(self, src, k):
        raw = self.tags.get(("packb", src))
        if raw is None:
            return None
        obj, default = raw
        strict = k.get("strict_map_key")
        strict = True if strict is None else self.truth(strict)
        return self.mp_image(obj, default, k.get("object_hook"), strict)
