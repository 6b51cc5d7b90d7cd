"""Statements, expressions, attribute access, calls."""
import ast
from .terms import *
from .engine import (RunBase, Raise, Ret, Brk, Cnt, Stop, Env, Lazy_, exc_sub, ext_exc_class, kind_of_const,
                     KIND_OF_EXT, BASE_KINDS)
from .repo import ClassInfo
from .lib import LibMixin
from .rel import RelMixin
from .cli import Obj

BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}


def cached(f):
    tab = {}

    def g(x):
        k = id(x) if not isinstance(x, list) else tuple(id(e) for e in x)
        r = tab.get(k)
        if r is None:
            r = tab[k] = (f(x), x)
        return r[0]
    return g


@cached
def assigned_names(stmts):
    out = []

    def tgt(t):
        if isinstance(t, ast.Name):
            if t.id not in out:
                out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    class V(ast.NodeVisitor):
        def visit_Assign(self, n):
            for t in n.targets:
                tgt(t)
            self.generic_visit(n)

        def visit_AugAssign(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_AnnAssign(self, n):
            if n.value is not None:
                tgt(n.target)
            self.generic_visit(n)

        def visit_For(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_NamedExpr(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_FunctionDef(self, n):
            pass

        def visit_Lambda(self, n):
            pass
    for s in stmts:
        V().visit(s)
    return out


MUTATORS = {"append", "add", "extend", "update", "pop", "remove", "insert", "clear", "setdefault", "discard", "popitem"}


@cached
def mutated_names(stmts):
    """names whose container content the loop body changes through them"""
    out = []
    for s in stmts:
        for n in ast.walk(s):
            b = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                b = n.func.value
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                for t in ts:
                    if isinstance(t, ast.Subscript):
                        b2 = t.value
                        if isinstance(b2, (ast.Name, ast.Attribute)) and ast.unparse(b2) not in [ast.unparse(x) for x in out]:
                            out.append(b2)
            if isinstance(b, (ast.Name, ast.Attribute)) and ast.unparse(b) not in [ast.unparse(x) for x in out]:
                out.append(b)
    return out


@cached
def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


class CtxGen(Heap):
    """The value of a call of a function decorated with contextlib.contextmanager"""

    def __init__(self, func, binds):
        self.func, self.binds = func, binds


class Run(RelMixin, LibMixin, RunBase):

    # ================================================================ statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > self.opts.max_steps:
            raise Stop("bound: steps")
        f = self.stack[-1][0] if self.stack else env.module.name
        self.cur = (env.module.path, s.lineno, f)
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            self.imprecise("statement %s" % type(s).__name__)
        m(s, env)

    def st_Pass(self, s, env):
        pass

    def st_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def st_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def st_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, env)
            self.set_name(t.id, self.augop(s.op, cur, self.ev(s.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr_(o, t.attr)
            self.setattr_(o, t.attr, self.augop(s.op, cur, self.ev(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev_slice(t.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.augop(s.op, cur, self.ev(s.value, env)))

    def augop(self, op, cur, v):
        if isinstance(op, ast.Add):
            c = self.deref(cur)
            if isinstance(c, Seq) and c.kind == "list":
                self.seq_extend(c, v)
                return cur
        if isinstance(op, ast.BitOr):
            c = self.deref(cur)
            if isinstance(c, Dict):
                self.dict_update(c, v)
                return cur
        return self.binop(BINOPS[type(op)], cur, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            self.setitem(o, self.ev_slice(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        else:
            self.imprecise("assignment target")

    def unpack(self, elts, v, env):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        v = self.heapify(v)
        if isinstance(v, Seq) and not v.has_star():
            items = list(v.items)
        elif isinstance(v, Nt):
            items = [x for _, x in v.d.entries.values()]
        elif isinstance(v, Dict) and not v.stars and v.base is None:
            items = [k for k, x in v.entries.values() if x is not Dict.TOMB]
        else:
            items = None
        if items is not None:
            if star:
                i = star[0]
                after = len(elts) - i - 1
                if len(items) < len(elts) - 1:
                    self.raise_("ValueError", C("unpack"))
                for e, x in zip(elts[:i], items[:i]):
                    self.assign(e, x, env)
                self.assign(elts[i].value, Seq("list", items[i:len(items) - after]), env)
                for e, x in zip(elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, x, env)
            else:
                if len(items) != len(elts):
                    self.raise_("ValueError", C("unpack"))
                for e, x in zip(elts, items):
                    self.assign(e, x, env)
            return
        if star:
            if isinstance(v, Seq) and v.items and not isinstance(v.items[0], Star) and star[0] == 1 and len(elts) == 2:
                self.assign(elts[0], v.items[0], env)
                self.assign(elts[1].value, Seq("list", v.items[1:]), env)
                return
            fz = self.freeze(v)
            for i, e in enumerate(elts[:star[0]]):
                self.assign(e, self.item_term(fz, C(i)), env)
            self.assign(elts[star[0]].value, T("slice", fz, C(star[0]), NONE), env)
            for i, e in enumerate(elts[star[0] + 1:]):
                self.assign(e, self.item_term(fz, C(i - (len(elts) - star[0] - 1))), env)
            return
        fz = self.freeze(v)
        if isinstance(v, Seq):
            self.decide(T("eq", T("len", fz), C(len(elts)))) or self.raise_("ValueError", C("unpack"))
        elif isinstance(fz, T) and self.in_handler("builtins.ValueError"):
            if not self.decide(T("eq", T("len", fz), C(len(elts)))):
                self.raise_("ValueError", C("unpack"))
        for i, e in enumerate(elts):
            self.assign(e, self.getitem(v, C(i)) if isinstance(v, T) else self.item_term(fz, C(i)), env)

    def item_term(self, base, k):
        return T("item", base, k)

    def st_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, env), self.ev_slice(t.slice, env))
            elif isinstance(t, ast.Attribute):
                self.delattr_(self.ev(t.value, env), t.attr)

    def st_If(self, s, env):
        if self.truth(self.ev(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def st_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            self.raise_("AssertionError")

    def st_Return(self, s, env):
        raise Ret(self.ev(s.value, env) if s.value is not None else NONE)

    def st_Break(self, s, env):
        raise Brk()

    def st_Continue(self, s, env):
        raise Cnt()

    def st_Raise(self, s, env):
        if s.exc is None:
            h = getattr(self, "handling", None)
            if h:
                raise Raise(h[-1], self.cur)
            self.imprecise("bare raise")
        v = self.ev(s.exc, env)
        if isinstance(v, (ClassObj,)) or (isinstance(v, T) and v.op == "ext"):
            v = self.call(v, [], {}, s)
        raise Raise(v, (env.module.path, s.lineno, self.cur[2]))

    def st_Global(self, s, env):
        env.globals.update(s.names)

    def st_Nonlocal(self, s, env):
        env.nonlocals.update(s.names)

    def st_Import(self, s, env):
        for a in s.names:
            if self.may_raise(["builtins.ImportError", "builtins.ModuleNotFoundError"], "import"):
                self.raise_("ModuleNotFoundError", C(a.name))
            if a.asname:
                self.set_name(a.asname, self.from_resolved(self.repo.resolve(a.name)), env)
            else:
                top = a.name.split(".")[0]
                self.set_name(top, self.from_resolved(self.repo.resolve(top)), env)
            self.event("import", C(a.name))

    def st_ImportFrom(self, s, env):
        base = s.module or ""
        if s.level:
            m = env.module
            pkg = m.name if m.path.endswith("__init__.py") else m.name.rpartition(".")[0]
            parts = pkg.split(".")
            parts = parts[: len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            self.set_name(a.asname or a.name, self.from_resolved(self.repo.resolve(base, a.name)), env)
        self.event("import", C(base))

    def st_FunctionDef(self, s, env):
        self.set_name(s.name, self.decorated(s, env, env.module), env)

    def st_ClassDef(self, s, env):
        info = ClassInfo(env.module, s, s.name)
        self.set_name(s.name, self.classobj(info, env), env)

    def st_With(self, s, env):
        self.with_items(list(s.items), s.body, env)

    def with_items(self, items, body, env):
        if not items:
            self.block(body, env)
            return
        it = items[0]
        cm = self.ev(it.context_expr, env)
        if isinstance(cm, T) and cm.op == "call" and cm.a[0] == "contextlib.suppress":
            names = [x for x in cm.a[1:]]
            self.try_stack.append([n.a[0] for n in names if is_ext(n)])
            try:
                self.with_items(items[1:], body, env)
            except Raise as r:
                if not any(self.exc_matches(r.value, n) for n in names):
                    raise
            finally:
                self.try_stack.pop()
            return
        if isinstance(cm, Inst) and cm.cls is not None and self.find_member(cm.cls, "__enter__")[1] is not None:
            v = self.call(self.getattr_(cm, "__enter__"), [], {}, it)
            ex = lambda: self.call(self.getattr_(cm, "__exit__"), [NONE, NONE, NONE], {}, it)
        elif isinstance(cm, CtxGen):
            return self.with_generator(cm, it, lambda: self.with_items(items[1:], body, env), env)
        else:
            v, ex = self.enter(cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            self.with_items(items[1:], body, env)
        except Stop:
            raise
        except BaseException:
            ex()
            raise
        ex()

    def with_generator(self, cm, it, body, env):
        """A with statement over a @contextmanager function: the statement's body runs at the yield, so that
        what it raises is seen by the handlers around the yield, and what leaves it (return, break, continue)
        takes effect when the generator has ended."""
        left, entered = [], []

        def on_yield(v):
            if entered:
                self.raise_("RuntimeError", C("generator didn't stop"))
            entered.append(1)
            frame, cur = self.stack.pop(), self.cur
            try:
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env)
                body()
            except (Ret, Brk, Cnt) as e:
                left.append(e)
            finally:
                self.stack.append(frame)
                self.cur = cur
            return NONE
        fn = cm.func
        genv = Env(fn.module, fn.env, fn.cls, fn)
        if fn.cls is not None or genv.cls is None:
            genv.cls = fn.cls
        if fn.cls is not None and fn.node.args.args:
            genv.self_ = cm.binds.get(fn.node.args.args[0].arg)
        genv.vars.update(cm.binds)
        genv.yields = on_yield
        q, old = fn.qual, self.cur
        self.eng.functions.add(q)
        self.stack.append((q, old))
        try:
            try:
                self.block(fn.node.body, genv)
            except Ret:
                pass
        finally:
            self.stack.pop()
            self.cur = old
        if not entered:
            self.raise_("RuntimeError", C("generator didn't yield"))
        if left:
            raise left[0]

    # ---------------------------------------------------------------- try
    def in_handler(self, name):
        return any(any(n is None or exc_sub(name, n) for n in fr) for fr in self.try_stack)

    def may_raise(self, names, what):
        """Fork on the failure of an external operation, if some active handler would see it."""
        cands = [n for n in names if self.in_handler(n)]
        if not cands or not self.opts.faults and names == ["builtins.OSError"]:
            return False
        return self.choose(("raises", what), 2) == 1

    def handler_names(self, h, env):
        if h.type is None:
            return [None]
        v = self.ev(h.type, env)
        vs = v.items if isinstance(v, Seq) else [v]
        return vs

    def exc_matches(self, exc, cls):
        if cls is None:
            return True
        exc_ = self.deref(exc)
        if isinstance(exc_, Exc):
            if isinstance(cls, T) and cls.op == "ext":
                return exc_sub(exc_.cls, cls.a[0])
            return False
        if isinstance(exc_, Inst) and exc_.cls is not None:
            for c in self.mro(exc_.cls):
                if c is cls:
                    return True
                if isinstance(c, T) and isinstance(cls, T) and exc_sub(c.a[0], cls.a[0]):
                    return True
            return False
        return self.decide(T("isinst", self.freeze(exc), self.freeze(cls)))

    def st_Try(self, s, env):
        handlers = [(h, self.handler_names(h, env)) for h in s.handlers]
        frame = []
        for h, vs in handlers:
            for v in vs:
                if v is None:
                    frame.append(None)
                elif isinstance(v, T) and v.op == "ext":
                    frame.append(v.a[0])
        def fin():
            if s.finalbody:
                self.block(s.finalbody, env)
        try:
            if handlers:
                self.try_stack.append(frame)
            try:
                try:
                    self.block(s.body, env)
                finally:
                    if handlers:
                        self.try_stack.pop()
            except Raise as r:
                for h, vs in handlers:
                    if any(self.exc_matches(r.value, v) for v in vs):
                        if h.name:
                            self.set_name(h.name, r.value, env)
                        if not hasattr(self, "handling"):
                            self.handling = []
                        self.handling.append(r.value)
                        try:
                            self.block(h.body, env)
                        finally:
                            self.handling.pop()
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        except Stop:
            raise
        except BaseException:
            fin()
            raise
        fin()

    # ---------------------------------------------------------------- loops
    def loop_body(self, s, env):
        """-> True if the loop was left by break"""
        try:
            self.block(s.body, env)
        except Brk:
            return True
        except Cnt:
            pass
        return False

    def havoc(self, s, env, extra=()):
        i = self.fresh("loop")
        for n in assigned_names(s.body):
            if n in extra:
                continue
            e = env
            if n in env.nonlocals or n in env.globals:
                continue
            if n in e.vars:
                old = e.vars[n]
                e.vars[n] = self.havoc_value(old, n, i)
        for b in mutated_names(s.body):
            root = b
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root.id in assigned_names(s.body):
                # an alias defined in the loop
                if root.id not in env.vars or isinstance(b, ast.Name):
                    continue
            try:
                v = self.ev(b, env)
            except Raise:
                continue
            self.havoc_container(v, i, ast.unparse(b))

    def havoc_value(self, old, n, i):
        t = T("phi", i, n)
        o = self.deref(old)
        self.tags[t] = old
        if isinstance(o, T) and o.op == "c" and isinstance(o.a[0], (int, float)) and not isinstance(o.a[0], bool):
            self.kindmap[t] = frozenset(["int", "float"])
        if isinstance(o, Seq) and o.kind == "list":
            self.kindmap[t] = frozenset(["list"])
        return t

    def havoc_container(self, v, i, n):
        v = self.deref(v)
        if isinstance(v, Seq) and v.kind in ("list", "set"):
            if not any(isinstance(x, Star) and isinstance(x.value, T) and x.value.op == "acc" for x in v.items):
                v.items.append(Star(T("acc", i, n)))
        elif isinstance(v, Dict):
            v.stars.append((T("acckey", i, n), T("acc", i, n)))

    def st_For(self, s, env):
        it = self.ev(s.iter, env)
        broke = self.for_loop(s, it, env)
        if not broke:
            self.block(s.orelse, env)

    def for_loop(self, s, it, env):
        segs = self.segments(it)
        for kind, x in segs:
            if kind == "v":
                self.assign(s.target, x, env)
                if self.loop_body(s, env):
                    return True
            else:
                modes = self.opts.loop
                m = modes[self.choose("loop", len(modes))]
                if m == "0":
                    self.notes.append(("loop0", s.lineno))
                    continue
                if m in ("1", "2"):
                    for _ in range(int(m)):
                        self.assign(s.target, x(), env)
                        if self.loop_body(s, env):
                            return True
                else:
                    tn = assigned_names([ast.For(target=s.target, iter=s.iter, body=[], orelse=[], lineno=0)])
                    self.havoc(s, env, tn)
                    self.assign(s.target, x(), env)
                    self.notes.append(("loopn", s.lineno))
                    if self.loop_body(s, env):
                        return True
        return False

    def st_While(self, s, env):
        t = s.test
        # induction variable: while i < E: ...; i += 1
        if (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name)
                and s.body and isinstance(s.body[-1], ast.AugAssign) and isinstance(s.body[-1].target, ast.Name)
                and s.body[-1].target.id == t.left.id and isinstance(s.body[-1].op, ast.Add)
                and isinstance(s.body[-1].value, ast.Constant) and s.body[-1].value.value == 1
                and t.left.id not in assigned_names(s.body[:-1])
                and not any(isinstance(n, ast.Continue) for b in s.body for n in ast.walk(b))):
            start = self.name(t.left.id, env)
            stop = self.ev(t.comparators[0], env)
            if not (is_c(start) and is_c(stop)):
                rng = self.call(ext("builtins.range"), [start, stop], {}, s)
                loop = ast.For(target=t.left, iter=t, body=s.body[:-1], orelse=[], lineno=s.lineno)
                broke = self.for_loop(loop, rng, env)
                if not broke:
                    self.set_name(t.left.id, stop, env)
                    self.block(s.orelse, env)
                return
        n = 0
        und = 0
        while True:
            before = len(self.trace)
            c = self.truth(self.ev(t, env))
            forked = len(self.trace) > before
            if not c:
                self.block(s.orelse, env)
                return
            body_before = len(self.trace)
            n += 1
            if forked:
                und += 1
            if und > self.opts.while_bound or n > 60:
                raise Stop("bound: while")
            if self.loop_body(s, env):
                return
            if len(self.trace) > body_before:
                und += 1

    # ================================================================ expressions
    def ev(self, n, env):
        self.steps += 1
        if self.steps > self.opts.max_steps:
            raise Stop("bound: steps")
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            self.imprecise("expression %s" % type(n).__name__)
        return m(n, env)

    def ex_Constant(self, n, env):
        return C(n.value) if n.value is not Ellipsis else ext("builtins.Ellipsis")

    def ex_Name(self, n, env):
        return self.name(n.id, env)

    def ex_Attribute(self, n, env):
        return self.getattr_(self.ev(n.value, env), n.attr)

    def ev_slice(self, n, env):
        if isinstance(n, ast.Index):
            n = n.value
        if isinstance(n, ast.Slice):
            f = lambda x: self.ev(x, env) if x is not None else NONE
            return T("sl", f(n.lower), f(n.upper), f(n.step))
        return self.ev(n, env)

    def ex_Subscript(self, n, env):
        o = self.ev(n.value, env)
        return self.getitem(o, self.ev_slice(n.slice, env))

    def ex_Tuple(self, n, env):
        return Seq("tuple", self.elts(n.elts, env))

    def ex_List(self, n, env):
        return Seq("list", self.elts(n.elts, env))

    def ex_Set(self, n, env):
        return Seq("set", self.elts(n.elts, env))

    def elts(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.spread(self.ev(e.value, env)))
            else:
                out.append(self.ev(e, env))
        return out

    def spread(self, v):
        out = []
        for k, x in self.segments(v):
            out.append(x if k == "v" else Star(x()))
        return out

    def ex_Dict(self, n, env):
        d = Dict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(d, self.ev(v, env))
            else:
                kk = self.ev(k, env)
                self.setitem(d, kk, self.ev(v, env))
        return d

    def ex_Lambda(self, n, env):
        return self.make_func(n, env, env.module)

    def ex_IfExp(self, n, env):
        return self.ev(n.body, env) if self.truth(self.ev(n.test, env)) else self.ev(n.orelse, env)

    def ex_BoolOp(self, n, env):
        v = None
        for i, e in enumerate(n.values):
            v = self.ev(e, env)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(n.op, ast.And) and not t:
                return v
            if isinstance(n.op, ast.Or) and t:
                return v
        return v

    def ex_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            return B(not self.truth(v))
        if is_c(v):
            try:
                x = v.a[0]
                return C(-x if isinstance(n.op, ast.USub) else (+x if isinstance(n.op, ast.UAdd) else ~x))
            except TypeError:
                self.raise_("TypeError")
        if isinstance(n.op, ast.USub):
            return T("neg", self.freeze(v))
        return T("unary", type(n.op).__name__, self.freeze(v))

    def ex_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        return self.binop(BINOPS[type(n.op)], a, b)

    def ex_Compare(self, n, env):
        a = self.ev(n.left, env)
        for op, r in zip(n.ops, n.comparators):
            b = self.ev(r, env)
            if not self.compare(op, a, b):
                return FALSE
            a = b
        return TRUE

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.ne(a, b)
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return not self.is_(a, b)
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return not self.contains(b, a)
        names = {ast.Lt: "__lt__", ast.Gt: "__gt__", ast.LtE: "__le__", ast.GtE: "__ge__"}
        return self.order(names[type(op)], a, b)

    def ex_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                x = self.ev(v.value, env)
                spec = self.ev(v.format_spec, env) if v.format_spec is not None else None
                if v.conversion == ord("r"):
                    x = self.call(ext("builtins.repr"), [x], {}, n)
                elif v.conversion == ord("s"):
                    x = self.to_str(x)
                if spec is not None and not (is_c(spec) and spec.a[0] == ""):
                    x = self.format_(x, spec)
                else:
                    x = self.to_str(x)
                parts.append(x)
        return self.cat(parts)

    def ex_FormattedValue(self, n, env):
        return self.to_str(self.ev(n.value, env))

    def ex_Starred(self, n, env):
        self.imprecise("starred expression")

    def ex_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.assign(n.target, v, env)
        return v

    def ex_Await(self, n, env):
        self.imprecise("await")

    def ex_Yield(self, n, env):
        v = self.ev(n.value, env) if n.value is not None else NONE
        e = env
        while e.yields is None and e.parent is not None:
            e = e.parent
        if e.yields is None:
            self.imprecise("yield")
        if callable(e.yields):
            return e.yields(v)
        e.yields.append(Star(v) if getattr(self, "in_generic", 0) else v)
        return NONE

    def ex_YieldFrom(self, n, env):
        e = env
        v = self.ev(n.value, env)
        if e.yields is None or callable(e.yields):
            self.imprecise("yield from")
        e.yields.extend(self.spread(v))
        return NONE

    # ---------------------------------------------------------------- comprehensions
    def comp(self, gens, env, emit):
        inner = Env(env.module, env, env.cls, env.func)

        def go(i, generic):
            if i == len(gens):
                emit(inner, generic)
                return
            g = gens[i]
            for kind, x in self.segments(self.ev(g.iter, inner if i else env)):
                if kind == "v":
                    self.assign(g.target, x, inner)
                    if all(self.truth(self.ev(c, inner)) for c in g.ifs):
                        go(i + 1, generic)
                else:
                    self.assign(g.target, x(), inner)
                    if all(self.truth(self.ev(c, inner)) for c in g.ifs):
                        go(i + 1, True)
                    else:
                        self.notes.append(("filtered", self.cur[1]))
        go(0, False)

    def ex_ListComp(self, n, env, kind="list"):
        out = []
        self.comp(n.generators, env, lambda e, g: out.append(Star(self.ev(n.elt, e)) if g else self.ev(n.elt, e)))
        return Seq(kind, out)

    def ex_GeneratorExp(self, n, env):
        return self.ex_ListComp(n, env, "gen")

    def ex_SetComp(self, n, env):
        return self.ex_ListComp(n, env, "set")

    def ex_DictComp(self, n, env):
        d = Dict()

        def emit(e, g):
            k = self.ev(n.key, e)
            v = self.ev(n.value, e)
            if g:
                d.stars.append((k, v))
            else:
                self.setitem(d, k, v)
        self.comp(n.generators, env, emit)
        return d

    def quantifier(self, name, n, env):
        """any()/all() of a generator expression, with its short-circuit semantics"""
        want = name == "any"      # the value that ends the iteration
        class Done(Exception):
            pass

        def emit(e, generic):
            if not generic:
                if self.truth(self.ev(n.elt, e)) == want:
                    raise Done()
                return
            c = self.choose(name, 3)
            if c == 2:      # no element
                self.notes.append(("vacuous", name, self.cur[1]))
                return
            t = self.truth(self.ev(n.elt, e))
            if c == 1:      # a witness
                if t != want:
                    raise Stop("infeasible quantifier")
                raise Done()
            if t == want:
                raise Stop("infeasible quantifier")
        try:
            self.comp(n.generators, env, emit)
        except Done:
            return B(want)
        return B(not want)

    # ================================================================ calls
    def ex_Call(self, n, env):
        if (isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args):
            e = env
            while e is not None and e.self_ is None:
                e = e.parent
            if e is None or e.cls is None:
                self.imprecise("super()")
            return Super(e.cls, e.self_)
        if (isinstance(n.func, ast.Name) and n.func.id in ("any", "all") and len(n.args) == 1
                and isinstance(n.args[0], ast.GeneratorExp)):
            f = self.ev(n.func, env)
            if is_ext(f, "builtins." + n.func.id):
                return self.quantifier(n.func.id, n.args[0], env)
        fn = self.ev(n.func, env)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.spread(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        for k in n.keywords:
            if k.arg is None:
                d = self.heapify(self.ev(k.value, env))
                if isinstance(d, Dict):
                    for kk, v in d.entries.values():
                        if v is not Dict.TOMB:
                            if is_str_c(kk):
                                kwargs[kk.a[0]] = v
                            else:
                                kwargs[kk] = v
                    if d.stars or d.base is not None:
                        kwargs["**"] = d
                else:
                    kwargs["**"] = d
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        old = self.cur
        self.cur = (env.module.path, n.lineno, self.cur[2])
        r = self.call(fn, args, kwargs, n)
        self.cur = (env.module.path, n.lineno, old[2])
        return r

    def call(self, fn, args=(), kwargs=None, node=None):
        args, kwargs = list(args), dict(kwargs or {})
        fn = self.deref(fn)
        if isinstance(fn, Bound):
            return self.call(fn.func, [fn.self_] + args, kwargs, node)
        if isinstance(fn, Func):
            return self.call_func(fn, args, kwargs)
        if isinstance(fn, ClassObj):
            return self.construct(fn, args, kwargs, node)
        if isinstance(fn, Native):
            return fn.fn(args, kwargs)
        if isinstance(fn, Partial):
            return self.call(fn.fn, list(fn.args) + args, {**fn.kwargs, **kwargs}, node)
        if isinstance(fn, Inst):
            return self.call(self.getattr_(fn, "__call__"), args, kwargs, node)
        if isinstance(fn, T):
            if fn.op == "ext":
                return self.call_ext(fn.a[0], args, kwargs, node)
            if fn.op == "attr":
                return self.call_method(fn.a[0], fn.a[1], args, kwargs, node)
            return self.call_opaque(fn, args, kwargs, node)
        self.imprecise("call of %r" % (fn,))

    def call_opaque(self, fn, args, kwargs, node=None):
        n = self.fresh("opaque")
        if self.may_raise(["builtins.Exception"], "opaque"):
            raise Raise(Exc("builtins.Exception", [], T("exc_of", n)), self.cur)
        r = T("ret", self.freeze(fn), tuple(self.freeze(a) for a in args),
              tuple(sorted((str(k), self.freeze(v)) for k, v in kwargs.items())), n)
        e = self.event("ocall", fn, *args, **{str(k): v for k, v in kwargs.items()})
        e.kw["__ret__"] = r
        return r

    def bind(self, fn, args, kwargs):
        pass

    def bind_args(self, fn, args, kwargs):
        a = fn.node.args
        pos = [x.arg for x in getattr(a, "posonlyargs", [])] + [x.arg for x in a.args]
        out = {}
        kwargs = dict(kwargs)
        extra = []
        starred = [x for x in args if isinstance(x, Star)]
        if starred and not a.vararg:
            self.imprecise("star arguments")
        for i, v in enumerate(args):
            if i < len(pos) and not extra:
                out[pos[i]] = v
            elif a.vararg:
                extra.append(v)
            else:
                self.raise_("TypeError", C("too many arguments"))
        rest = kwargs.pop("**", None)
        for k in list(kwargs):
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                if k in out:
                    self.raise_("TypeError", C("multiple values"))
                out[k] = kwargs.pop(k)
        nd = len(fn.defaults)
        for i, p in enumerate(pos):
            if p not in out:
                j = i - (len(pos) - nd)
                if j >= 0:
                    out[p] = fn.defaults[j]
                elif rest is not None:
                    out[p] = T("item", self.freeze(rest), C(p))
                else:
                    self.raise_("TypeError", C("missing argument " + p))
        for x in a.kwonlyargs:
            if x.arg not in out:
                if x.arg in fn.kwdefaults:
                    out[x.arg] = fn.kwdefaults[x.arg]
                else:
                    self.raise_("TypeError", C("missing argument " + x.arg))
        if a.vararg:
            out[a.vararg.arg] = Seq("tuple", extra)
        if a.kwarg:
            d = Dict()
            for k, v in kwargs.items():
                self.setitem(d, C(k) if isinstance(k, str) else k, v)
            out[a.kwarg.arg] = d
        elif kwargs:
            self.raise_("TypeError", C("unexpected argument"))
        return out

    def call_func(self, fn, args, kwargs):
        q = fn.qual
        binds = self.bind_args(fn, args, kwargs)
        if q in self.opts.models:
            return self.opts.models[q](self, binds, fn)
        limit = self.opts.rec_limit.get(q, self.opts.rec_default)
        depth = self.active.get(id(fn.node), 0)
        if q in self.opts.opaque or depth >= limit:
            return self.cut(fn, binds)
        if len(self.stack) > 60:
            self.imprecise("stack")
        if not isinstance(fn.node, ast.Lambda) and is_generator(fn.node) and "contextmanager" in self.deco_names(fn.node):
            return CtxGen(fn, binds)
        env = Env(fn.module, fn.env, fn.cls, fn)
        if fn.cls is not None or env.cls is None:
            env.cls = fn.cls
        if fn.cls is not None and fn.node.args.args:
            env.self_ = binds.get(fn.node.args.args[0].arg)
        env.vars.update(binds)
        self.eng.functions.add(q)
        self.stack.append((q, self.cur))
        self.active[id(fn.node)] = depth + 1
        old = self.cur
        self.cur = (fn.module.path, fn.node.lineno, q)
        try:
            if isinstance(fn.node, ast.Lambda):
                self.cur = (fn.module.path, fn.node.lineno, old[2])
                return self.ev(fn.node.body, env)
            if is_generator(fn.node):
                env.yields = []
                try:
                    self.block(fn.node.body, env)
                except Ret:
                    pass
                return Seq("gen", env.yields)
            try:
                self.block(fn.node.body, env)
            except Ret as r:
                return r.value
            return NONE
        finally:
            self.stack.pop()
            self.active[id(fn.node)] = depth
            self.cur = old

    def cut(self, fn, binds):
        fz = tuple(sorted((k, self.freeze(v)) for k, v in binds.items()))
        n = self.fresh("rec")
        t = T("rec", fn.qual, fz, n)
        e = self.event("rec", C(fn.qual), **binds)
        e.kw["__ret__"] = t
        e.raw = dict(binds)
        if self.may_raise(["builtins.Exception"], "rec"):
            raise Raise(Exc("builtins.Exception", [], T("exc_of", n)), self.cur)
        return t

    def construct(self, co, args, kwargs, node=None):
        model = self.opts.models.get(co.qual)
        if model is not None:
            return model(self, args, kwargs, co)
        if self.is_enum_class(co):
            members = self.enum_members(co)
            v = args[0] if args else NONE
            vz = self.freeze(v)
            for name, m in members.items():
                if self.eq(v, m.d.entries[C("value")][1]):
                    return m
            self.raise_("ValueError", T("cat", vz, C(" is not a valid member")))
        o = Inst(co)
        owner, init = self.find_member(co, "__init__")
        if init is not None:
            # a dataclass derived from a class with __init__ generates its own
            first_dc = next((c for c in self.mro(co) if isinstance(c, ClassObj) and c.info.is_dataclass()), None)
            m = self.mro(co)
            if first_dc is not None and m.index(first_dc) < m.index(owner):
                init = None
        if init is not None:
            self.call(self.func_of(owner, init), [o] + args, kwargs, node)
            return o
        fields = self.dc_fields(co)
        if fields is not None:
            vals = {}
            names = [n for n in fields]
            if len(args) > len(names):
                self.raise_("TypeError", C("too many arguments"))
            for n, v in zip(names, args):
                vals[n] = v
            rest = kwargs.pop("**", None)
            for k, v in kwargs.items():
                if not isinstance(k, str):
                    # a symbolic keyword
                    for n in names:
                        if n not in vals and self.eq(k, C(n)):
                            vals[n] = v
                            break
                    else:
                        self.raise_("TypeError", C("unexpected argument"))
                    continue
                if k not in fields or k in vals:
                    self.raise_("TypeError", C("unexpected argument " + str(k)))
                vals[k] = v
            for n in names:
                if n not in vals:
                    f = fields[n].d.entries
                    df, fac = f[C("default")][1], f[C("default_factory")][1]
                    if rest is not None:
                        vals[n] = T("item", self.freeze(rest), C(n))
                    elif not is_ext(df, "dataclasses.MISSING"):
                        vals[n] = df
                    elif not is_ext(fac, "dataclasses.MISSING"):
                        vals[n] = self.call(fac, [], {}, node)
                    else:
                        self.raise_("TypeError", C("missing argument " + n))
            for n in names:
                self.setattr_(o, n, vals[n])
            po, post = self.find_member(co, "__post_init__")
            if post is not None:
                self.call(self.func_of(po, post), [o], {}, node)
            return o
        o.d.entries[C("args")] = (C("args"), Seq("tuple", args))
        if kwargs or (args and not self.is_exc_class(co)):
            if not any(isinstance(c, T) and c.op == "ext" and c.a[0] != "builtins.object" and
                       not c.a[0].startswith(("abc.", "typing.")) for c in self.mro(co)):
                self.raise_("TypeError", C("constructor takes no arguments"))
        return o

    def enum_members(self, co):
        m = getattr(co, "_members", None)
        if m is None:
            m = {}
            env = co.env or self.menv(co.info.module)
            for st in co.info.node.body:
                if isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name) and not t.id.startswith("_"):
                            o = Inst(co)
                            o.d.entries[C("name")] = (C("name"), C(t.id))
                            o.d.entries[C("value")] = (C("value"), self.ev(st.value, env))
                            m[t.id] = o
            co._members = m
        return m

    # ================================================================ attributes
    def getattr_(self, o, name, default=None):
        o = self.deref(o)
        if isinstance(o, Inst):
            if o.cls is not None:
                owner, ga = self.find_member(o.cls, "__getattribute__")
                if ga is not None:
                    return self.call(self.func_of(owner, ga), [o, C(name)], {})
            return self.raw_getattr(o, name)
        if isinstance(o, ClassObj):
            return self.class_getattr(o, name)
        if isinstance(o, ModuleObj):
            v = self.global_(o.module, name)
            if v is None or is_ext(v, "builtins." + name):
                r = self.repo.resolve(o.module.name, name)
                if r[0] == "module":
                    return ModuleObj(r[1])
                self.raise_("AttributeError", C(name))
            return v
        if isinstance(o, Super):
            return self.super_getattr(o, name)
        if isinstance(o, Nt):
            if name in ("_fields", "_asdict", "__class__", "_replace"):
                return T("attr", o, name) if False else Native(name, lambda a, k, o=o, name=name: self.nt_method(o, name, a, k)) \
                    if name in ("_asdict", "_replace") else self.nt_attr(o, name)
            e = o.d.entries.get(C(name))
            if e is not None:
                return e[1]
            self.raise_("AttributeError", C(name))
        if isinstance(o, (Seq, Dict)):
            if name == "__class__":
                return ext("builtins." + ({"gen": "object"}.get(o.kind, o.kind) if isinstance(o, Seq) else "dict"))
            return Native(name, lambda a, k, o=o, name=name: self.call_method(o, name, a, k))
        if isinstance(o, Func):
            if name in ("__name__", "__qualname__"):
                return C(o.name)
            if name == "__doc__":
                return NONE
            return T("attr", self.freeze(o), name)
        if isinstance(o, Bound):
            return self.getattr_(o.func, name)
        if isinstance(o, Exc):
            if name == "args":
                return Seq("tuple", o.args)
            if name == "code" and o.cls == "builtins.SystemExit":
                return o.args[0] if len(o.args) == 1 else Seq("tuple", o.args) if o.args else NONE
            if name == "errno" and isinstance(o.term, T) and o.term.op == "errno":
                return o.term.a[0]
            return T("attr", T("excval", o.cls, id(o) if False else self.exc_id(o)), name)
        if isinstance(o, T):
            return self.t_getattr(o, name)
        if isinstance(o, Obj):
            if name in o.attrs:
                return o.attrs[name]
            self.raise_("AttributeError", C(name))
        if isinstance(o, (Native, Partial)):
            return T("attr", self.freeze(o), name)
        self.imprecise("attribute of %r" % (o,))

    def exc_id(self, o):
        i = getattr(o, "eid", None)
        if i is None:
            i = o.eid = self.fresh("exc")
        return i

    def raw_getattr(self, o, name):
        co = o.cls
        if co is not None:
            owner, m = self.find_member(co, name)
            if isinstance(m, ast.FunctionDef):
                dn = self.deco_names(m)
                if "property" in dn:
                    return self.call(self.func_of(owner, m), [o], {})
                if "cached_property" in dn:
                    if C(name) in o.d.entries:
                        return o.d.entries[C(name)][1]
                    v = self.call(self.func_of(owner, m), [o], {})
                    o.d.entries[C(name)] = (C(name), v)
                    return v
        e = o.d.entries.get(C(name))
        if e is not None and e[1] is not Dict.TOMB:
            v = e[1]
            if isinstance(v, Lazy_):
                v = v.get()
                o.d.entries[C(name)] = (e[0], v)
            return v
        if co is None:
            if o.base is not None:
                return T("attr", o.base, name)
            self.raise_("AttributeError", C(name))
        if m is not None:
            return self.bind_member(owner, m, o, co, name)
        if name == "__class__":
            return co
        if name == "__dict__":
            return o.d
        if name == "__dataclass_fields__":
            return self.class_getattr(co, name)
        if e is None and o.base is not None and not name.startswith("__"):
            if self.closed_attrs(co, name):
                self.raise_("AttributeError", C(name))
            return T("attr", o.base, name)
        owner, ga = self.find_member(co, "__getattr__")
        if ga is not None:
            return self.call(self.func_of(owner, ga), [o, C(name)], {})
        if name in ("__eq__", "__hash__", "__str__", "__repr__", "__setattr__", "__init__"):
            return Native(name, lambda a, k: self.object_method(o, name, a, k))
        if self.is_exc_class(co) or any(isinstance(c, T) and c.op == "ext" and
                                        c.a[0] not in ("builtins.object", "abc.ABC", "typing.Generic", "enum.Enum")
                                        for c in self.mro(co)):
            if name in ("with_traceback", "__traceback__", "__cause__", "errno", "filename"):
                return T("attr", T("excobj"), name)
        self.raise_("AttributeError", C(name))

    def closed_attrs(self, co, name):
        """True if instances of the (data)class certainly have no such attribute"""
        f = self.dc_fields(co)
        return f is not None and name not in f and self.opts.globals.get("closed_attrs", False)

    def object_method(self, o, name, a, k):
        if name == "__setattr__":
            self.raw_setattr(o, cval(a[0]), a[1])
            return NONE
        if name == "__init__":
            return NONE
        if name == "__eq__":
            return B(o is self.deref(a[0]))
        return T("mcall", self.freeze(o), name)

    def bind_member(self, owner, m, o, co, name):
        if isinstance(m, ast.FunctionDef):
            dn = self.deco_names(m)
            f = self.func_of(owner, m)
            if "classmethod" in dn or "abstractclassmethod" in dn:
                return Bound(f, co)
            if "staticmethod" in dn:
                return f
            return Bound(f, o) if o is not None else f
        if isinstance(m, ast.AST):
            key = name
            if self.is_enum_class(owner) and name in self.enum_members(owner):
                return self.enum_members(owner)[name]
            v = owner.attrs.get(key)
            if v is None:
                env = owner.env or self.menv(owner.info.module)
                if isinstance(m, ast.Call) and ast.unparse(m.func).rsplit(".", 1)[-1] == "field" and self.is_dataclass_cls(owner):
                    df = [k.value for k in m.keywords if k.arg == "default"]
                    if not df:
                        self.raise_("AttributeError", C(name))
                    v = self.ev(df[0], env)
                else:
                    v = self.ev(m, env)
                owner.attrs[key] = v
        else:
            v = m
        if isinstance(v, Func) and o is not None and v.cls is None:
            return Bound(v, o)
        return v

    def class_getattr(self, co, name):
        if name == "__name__" or name == "__qualname__":
            return C(co.name)
        if name == "__module__":
            return C(co.info.module.name)
        if name == "__dataclass_fields__":
            f = self.dc_fields(co)
            if f is None:
                self.raise_("AttributeError", C(name))
            d = getattr(co, "_dcd", None)
            if d is None:
                d = Dict()
                for n, x in f.items():
                    d.entries[C(n)] = (C(n), x)
                co._dcd = d
            return d
        if name == "__bases__":
            b = self.class_bases(co)
            return Seq("tuple", b or [ext("builtins.object")])
        if name == "__mro__":
            return Seq("tuple", self.mro(co) + [ext("builtins.object")])
        if name == "__doc__":
            d = ast.get_docstring(co.info.node)
            return C(d) if d is not None else NONE
        if name == "__members__" and self.is_enum_class(co):
            d = Dict()
            for n, x in self.enum_members(co).items():
                d.entries[C(n)] = (C(n), x)
            return d
        if name == "__class__":
            return ext("enum.EnumMeta") if self.is_enum_class(co) else ext("builtins.type")
        owner, m = self.find_member(co, name)
        if m is not None:
            if isinstance(m, ast.FunctionDef) and "property" in self.deco_names(m):
                return T("property", owner.qual, name)
            return self.bind_member(owner, m, None, co, name)
        if name in ("__setattr__", "__getattribute__", "__init__"):
            return Native(name, lambda a, k: self.object_raw(name, a))
        if self.is_enum_class(co) and name == "__getitem__":
            return Native(name, lambda a, k: self.getitem(co, a[0]))
        self.raise_("AttributeError", C(name))

    def object_raw(self, name, a):
        o = self.deref(a[0])
        if name == "__setattr__":
            self.raw_setattr(o, self.need_name(a[1]), a[2])
            return NONE
        if name == "__getattribute__":
            return self.raw_getattr(o, self.need_name(a[1]))
        return NONE

    def need_name(self, v):
        v = self.bind_const(v)
        if not is_str_c(v):
            self.imprecise("attribute with unknown name")
        return v.a[0]

    def bind_const(self, v):
        v = self.deref(v)
        if isinstance(v, T) and v in self.bind:
            return self.bind[v]
        return v

    def super_getattr(self, s, name):
        obj = self.deref(s.obj)
        co = obj.cls if isinstance(obj, Inst) else obj
        if not isinstance(co, ClassObj):
            self.imprecise("super of unknown class")
        start = s.cls
        owner, m = self.find_member(co, name, after=start)
        if m is not None:
            if isinstance(m, ast.FunctionDef) and "property" in self.deco_names(m):
                return self.call(self.func_of(owner, m), [obj], {})
            return self.bind_member(owner, m, obj if isinstance(obj, Inst) else None, co, name)
        if name == "__getattribute__":
            return Native("object.__getattribute__", lambda a, k: self.raw_getattr_dyn(obj, a[0]))
        if name == "__setattr__":
            return Native("object.__setattr__", lambda a, k: (self.raw_setattr_dyn(obj, a[0], a[1]), NONE)[1])
        if name == "__delattr__":
            return Native("object.__delattr__", lambda a, k: (self.delattr_raw(obj, self.need_name(a[0])), NONE)[1])
        if name in ("__init__", "__init_subclass__"):
            def init(a, k):
                if isinstance(obj, Inst) and self.is_exc_class(obj.cls):
                    obj.d.entries[C("args")] = (C("args"), Seq("tuple", a))
                return NONE
            return Native("object.__init__", init)
        if name in ("__eq__", "__repr__", "__str__", "__hash__"):
            return Native("object." + name, lambda a, k: self.object_method(obj, name, a, k))
        self.raise_("AttributeError", C(name))

    def raw_getattr_dyn(self, obj, n):
        n = self.bind_const(n)
        if is_str_c(n):
            return self.raw_getattr(obj, n.a[0])
        # an attribute of unknown name: one of the known ones, or another
        return self.dyn_attr(obj, n)

    def dyn_attr(self, obj, n):
        nz = self.freeze(n)
        if isinstance(obj, Inst):
            for k, (kk, v) in list(obj.d.entries.items()):
                if v is not Dict.TOMB and self.eq(nz, k):
                    return v
            return T("attr*", obj.base if obj.base is not None else T("id", self.oid(obj)), nz)
        return T("attr*", self.freeze(obj), nz)

    def oid(self, o):
        i = getattr(o, "oid_", None)
        if i is None:
            i = o.oid_ = self.fresh("oid")
        return i

    def raw_setattr_dyn(self, obj, n, v):
        n = self.bind_const(n)
        if is_str_c(n):
            self.raw_setattr(obj, n.a[0], v)
        else:
            nz = self.freeze(n)
            obj.d.entries[nz] = (n, v)
            obj.d.writes.append((nz, v, False))
            self.event("setattr", obj, nz, v)

    def setattr_(self, o, name, v):
        o = self.heapify(o)
        if isinstance(o, Inst):
            if o.cls is not None:
                owner, m = self.find_member(o.cls, name + ".setter")
                if m is not None:
                    self.call(self.func_of(owner, m), [o, v], {})
                    return
                owner, sa = self.find_member(o.cls, "__setattr__")
                if sa is not None:
                    self.call(self.func_of(owner, sa), [o, C(name), v], {})
                    return
            self.raw_setattr(o, name, v)
            return
        if isinstance(o, ClassObj):
            o.attrs[name] = v
            self.event("setclassattr", o, C(name), v)
            return
        if isinstance(o, ModuleObj):
            self.menv(o.module).vars[name] = v
            self.event("setglobal", o, C(name), v)
            return
        if isinstance(o, T):
            i = self.heap.get(o)
            i = Inst(None, base=o)
            self.heap[o] = i
            self.raw_setattr(i, name, v)
            return
        if isinstance(o, Func):
            return
        self.imprecise("attribute assignment")

    def raw_setattr(self, o, name, v):
        if not isinstance(o, Inst):
            self.imprecise("attribute assignment")
        o.d.entries[C(name)] = (C(name), v)
        o.d.writes.append((C(name), v, False))
        self.event("setattr", o, C(name), v)

    def delattr_(self, o, name):
        o = self.heapify(o)
        if isinstance(o, Inst) and o.cls is not None:
            owner, da = self.find_member(o.cls, "__delattr__")
            if da is not None:
                self.call(self.func_of(owner, da), [o, C(name)], {})
                return
        self.delattr_raw(o, name)

    def delattr_raw(self, o, name):
        if isinstance(o, Inst):
            if C(name) in o.d.entries:
                if o.base is not None:
                    o.d.entries[C(name)] = (C(name), Dict.TOMB)
                else:
                    del o.d.entries[C(name)]
                self.event("delattr", o, C(name))
                return
            if o.base is not None:
                o.d.entries[C(name)] = (C(name), Dict.TOMB)
                return
        self.raise_("AttributeError", C(name))

    def t_getattr(self, t, name):
        if t.op == "ext":
            return self.ext_getattr(t.a[0], name)
        if t.op == "c" and t.a[0] is None:
            if name == "__class__":
                return ext("builtins.NoneType")
            self.raise_("AttributeError", C(name))
        if name == "__class__":
            return self.type_of(t)
        ks = self.kinds(t)
        if t.op == "ty":
            return self.ty_attr(t, name)
        if t.op == "type":
            return self.type_attr(t, name)
        if ks is not None and len(ks) > 1 and all(k.startswith("inst:") or k == "none" for k in ks):
            # find the class
            for k in sorted(ks):
                if self.split(t, [k]):
                    break
            ks = self.kinds(t)
        if ks is not None and len(ks) == 1:
            k = next(iter(ks))
            if k == "none":
                self.raise_("AttributeError", C(name))
            if k.startswith("inst:"):
                o = self.heapify(t)
                if isinstance(o, Inst):
                    return self.getattr_(o, name)
        if ks is not None and "none" in ks and len(ks) > 1:
            if self.split(t, ["none"]):
                self.raise_("AttributeError", C(name))
            ks = self.kinds(t)
        if ks is not None and name in ("_asdict", "_fields", "_replace"):
            if not self.split(t, ["nt", "nt0"]):
                self.raise_("AttributeError", C(name))
            if name == "_fields":
                return T("ntfields", t)
        if t.op == "P":
            return self.path_attr(t, name)
        return T("attr", t, name)
