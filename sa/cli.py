"""Abstract models of the command line libraries (click, argparse).  The command line is the scenario's (Opts.argv): constant options and words, arbitrary operands."""
from .terms import *
from .engine import Raise


class Obj(Native):
    """A library object with known attributes."""
    def __init__(self, name, attrs=None, fn=None):
        Native.__init__(self, name, fn or (lambda a, k: NONE))
        self.attrs = attrs or {}


def const(v, d=None):
    return v.a[0] if isinstance(v, T) and v.op == "c" else d


def exit_(run, code, *msg):
    run.event("exit", C(code), *msg)
    raise Raise(Exc("builtins.SystemExit", [C(code)]), run.cur)


def is_flag(w):
    s = const(w)
    return isinstance(s, str) and len(s) > 1 and s[0] == "-"




class CliMixin:
    # -------------------------------------------------------------- click
    def click_param(self, kind, a, k):
        decls = [const(x) for x in a]
        if not all(isinstance(x, str) for x in decls):
            self.imprecise("click.%s with unknown names" % kind)
        return Native("click." + kind, lambda x, y: self.click_add(x[0], (kind, decls, k)))

    def click_add(self, f, p):
        if isinstance(f, Obj) and "params" in f.attrs:
            f.attrs["params"].insert(0, p)
            return f
        return Obj("click.params", {"params": [p], "callback": f}, lambda a, k: self.call(f, a, k))

    def x_click__argument(self, a, k, n):
        return self.click_param("argument", a, k)

    def x_click__option(self, a, k, n):
        return self.click_param("option", a, k)

    def x_click__Path(self, a, k, n):
        for o in ("exists", "file_okay", "writable"):
            if k.get(o, NONE) is TRUE:
                self.imprecise("click.Path(%s=True)" % o)
        return T("call", "click.Path")

    def click_command(self, a, k, group=None, is_group=False):
        def deco(x, y):
            f = x[0]
            params = f.attrs["params"] if isinstance(f, Obj) and "params" in f.attrs else []
            cb = f.attrs["callback"] if isinstance(f, Obj) and "callback" in f.attrs else f
            name = const(a[0]) if a and not isinstance(a[0], (Func, Bound)) else const(k.get("name", NONE))
            if name is None:
                name = cb.name.lower().replace("_", "-")
            o = Obj("click.command " + name, {"params": params, "callback": cb, "name": C(name)})
            o.commands = {} if is_group else None
            o.module = cb.module if isinstance(cb, Func) else None
            o.fn = lambda args, kw: self.click_main(o, args, kw)
            o.attrs["main"] = Native("main", o.fn)
            if is_group:
                o.attrs["command"] = Native("command", lambda p, q: self.click_command(p, q, o))
                o.attrs["group"] = Native("group", lambda p, q: self.click_command(p, q, o, True))
                o.attrs["add_command"] = Native("add_command", lambda p, q: self.click_register(o, p, q))
            if group is not None:
                group.commands[name] = o
            return o
        if a and isinstance(a[0], (Func, Bound)):
            return deco(a, k)
        return Native("click.command", deco)

    def click_register(self, group, p, q):
        group.commands[const(p[1]) if len(p) > 1 else const(q.get("name", p[0].attrs["name"]))] = p[0]
        return NONE

    def x_click__group(self, a, k, n):
        return self.click_command(a, k, None, True)

    def x_click__command(self, a, k, n):
        return self.click_command(a, k)

    def x_sa_tools__argv(self, a, k, n):
        """the command line from now on (used by client modules)"""
        self.words = list(a)
        return NONE

    def argv_now(self):
        w = getattr(self, "words", None)
        return self.opts.argv if w is None else w

    def click_main(self, o, args, kw):
        words = self.argv_now()
        if args or "args" in kw:
            v = self.deref(args[0] if args else kw["args"])
            if not (isinstance(v, T) and v is NONE):
                words = self.spread(v)
        standalone = kw.get("standalone_mode", TRUE)
        if words is None:
            self.imprecise("the command line is unknown")
        r = self.click_run(o, list(words))
        if standalone is TRUE:
            exit_(self, 0)
        return r

    def click_run(self, o, words):
        if o.commands is not None:
            if o.module is not None:        # commands defined anywhere in the module
                for n, d in list(o.module.defs.items()):
                    if d[0] == "func" and d[1].decorator_list:
                        self.global_(o.module, n)
            self.call(o.attrs["callback"], [], self.click_bind(o, words, group=True))
            if not words:
                exit_(self, 0)
            c = o.commands.get(const(words[0]))
            if c is None:
                exit_(self, 2, C("No such command"))
            return self.click_run(c, words[1:])
        return self.call(o.attrs["callback"], [], self.click_bind(o, words))

    def click_bind(self, o, words, group=False):
        opts, pos, vals = {}, [], {}
        for kind, decls, k in o.attrs["params"]:
            for x in k:
                if x not in ("default", "type", "nargs", "is_flag", "help", "required", "show_default", "metavar", "multiple"):
                    self.imprecise("click parameter setting " + str(x))
            if kind == "argument":
                pos.append((decls[0].lower().replace("-", "_"), k))
                continue
            named = [x for x in decls if not x.startswith("-")]
            long_ = max((x for x in decls if x.startswith("-")), key=lambda x: (x.startswith("--"), len(x)))
            name = named[0] if named else long_.split("/")[0].lstrip("-").replace("-", "_").lower()
            flag = k.get("is_flag", FALSE) is TRUE or "/" in long_
            vals[name] = k.get("default", FALSE if flag else NONE)
            for x in decls:
                if x.startswith("-"):
                    on, _, off = x.partition("/")
                    opts[on.strip()] = (name, flag, TRUE)
                    if off:
                        opts[off.strip()] = (name, flag, FALSE)
        rest, i = [], 0
        while i < len(words):
            w = words[i]
            if is_flag(w) and not group:
                s = const(w)
                if s == "--help":
                    exit_(self, 0)
                if s not in opts:
                    exit_(self, 2, C("No such option: " + s))
                name, flag, v = opts[s]
                if not flag:
                    i += 1
                    if i >= len(words):
                        exit_(self, 2, C("Option requires an argument"))
                    v = words[i]
                vals[name] = v
            else:
                rest.append(w)
            i += 1
        if group:
            return vals
        for j, (name, k) in enumerate(pos):
            n = const(k.get("nargs", C(1)), 1)
            if n == -1:
                after = len(pos) - j - 1
                take, rest = rest[:len(rest) - after], rest[len(rest) - after:]
                if not take and k.get("required", FALSE) is TRUE:
                    exit_(self, 2, C("Missing argument"))
                vals[name] = Seq("tuple", take)
            elif n == 1:
                if rest:
                    vals[name] = rest.pop(0)
                elif "default" in k:
                    vals[name] = k["default"]
                elif k.get("required", TRUE) is FALSE:
                    vals[name] = NONE
                else:
                    exit_(self, 2, C("Missing argument"))
            else:
                self.imprecise("click nargs")
        if rest:
            exit_(self, 2, C("Got unexpected extra arguments"))
        return vals

    # ----------------------------------------------------------- argparse
    def x_argparse__ArgumentParser(self, a, k, n):
        for x in k:
            if x not in ("description", "prog", "usage", "epilog", "formatter_class", "add_help", "allow_abbrev"):
                self.imprecise("argparse setting " + str(x))
        p = Obj("argparse.ArgumentParser")
        p.opts, p.pos, p.sets = [], [], {}
        add = Native("add_argument", lambda x, y: self.ap_add(p, x, y))
        p.attrs = {"add_argument": add, "parse_args": Native("parse_args", lambda x, y: self.ap_parse(p, x, y, False)),
                   "parse_known_args": Native("parse_known_args", lambda x, y: self.ap_parse(p, x, y, True)),
                   "add_argument_group": Native("add_argument_group", lambda x, y: Obj("group", {"add_argument": add})),
                   "set_defaults": Native("set_defaults", lambda x, y: p.sets.update(y) or NONE), "print_help": Native("print_help", lambda x, y: NONE),
                   "error": Native("error", lambda x, y: exit_(self, 2)), "exit": Native("exit", lambda x, y: exit_(self, const(x[0], 0) if x else 0))}
        return p

    def ap_add(self, p, a, k):
        names = [const(x) for x in a]
        for x in k:
            if x not in ("dest", "type", "default", "nargs", "const", "action", "help", "metavar", "required"):
                self.imprecise("argparse argument setting " + str(x))
        if not all(isinstance(x, str) for x in names):
            self.imprecise("argparse argument with unknown name")
        d = {"names": names, "dest": const(k.get("dest", NONE)), "type": k.get("type"), "default": k.get("default", NONE), "nargs": const(k.get("nargs", NONE)), "const": k.get("const", NONE),
             "action": const(k.get("action", C("store"))), "required": k.get("required", FALSE) is TRUE}
        if names and names[0].startswith("-"):
            if d["dest"] is None:
                ln = [x for x in names if x.startswith("--")] or names
                d["dest"] = ln[0].lstrip("-").replace("-", "_")
            p.opts.append(d)
        else:
            d["dest"] = d["dest"] or names[0]
            p.pos.append(d)
        return Obj("action")

    def ap_conv(self, d, w):
        t = d["type"]
        if t is None or t is ext("builtins.str") or (isinstance(t, T) and t.op == "ext" and t.a[0] == "builtins.str"):
            return w
        return self.call(t, [w], {})

    def ap_default(self, d):
        v = d["default"]
        return self.ap_conv(d, v) if is_str_c(v) else v

    def ap_parse(self, p, a, k, known):
        words = self.argv_now()
        if a or "args" in k:
            v = self.deref(a[0] if a else k["args"])
            if v is not NONE:
                words = self.spread(v)
        if words is None:
            self.imprecise("the command line is unknown")
        ns = Obj("argparse.Namespace")
        for d in p.pos + p.opts:
            ns.attrs[d["dest"]] = {"store_true": FALSE, "store_false": TRUE}.get(d["action"], None) if d["action"] in ("store_true", "store_false") and d["default"] is NONE else self.ap_default(d)
        for n, v in p.sets.items():
            ns.attrs[n] = v
        words, i, rest, extra, chunks, seen = list(words), 0, [], [], 0, set()
        table = {n: d for d in p.opts for n in d["names"]}
        inpos = False
        while i < len(words):
            w = words[i]
            s = const(w)
            if s == "--":
                rest.extend(words[i + 1:])
                chunks += not inpos
                break
            if not is_flag(w):
                if not inpos:
                    chunks += 1
                inpos = True
                (rest if chunks == 1 or not p.pos else extra).append(w)
                i += 1
                continue
            inpos = False
            name, eq, val = s.partition("=")
            i += 1
            if name not in table:
                if name in ("-h", "--help"):
                    exit_(self, 0)
                cand = [n for n in table if n.startswith(name)] if name.startswith("--") else []
                if len(cand) != 1:
                    extra.append(w)
                    continue
                name = cand[0]
            d = table[name]
            seen.add(d["dest"])
            if d["action"] in ("store_true", "store_false", "store_const"):
                if eq:
                    exit_(self, 2)
                ns.attrs[d["dest"]] = {"store_true": TRUE, "store_false": FALSE}.get(d["action"], d["const"])
                continue
            if d["action"] not in ("store", "append"):
                self.imprecise("argparse action " + str(d["action"]))
            have = []
            if eq:
                have = [C(val)]
            elif d["nargs"] in (None, "?"):
                if i < len(words) and not is_flag(words[i]):
                    have = [words[i]]
                    i += 1
            else:
                while i < len(words) and not is_flag(words[i]):
                    have.append(words[i])
                    i += 1
            if d["nargs"] is None:
                if not have:
                    exit_(self, 2)
                v = self.ap_conv(d, have[0])
            elif d["nargs"] == "?":
                v = self.ap_conv(d, have[0]) if have else d["const"]
            elif d["nargs"] in ("*", "+"):
                if d["nargs"] == "+" and not have:
                    exit_(self, 2)
                v = Seq("list", [self.ap_conv(d, x) for x in have])
            else:
                self.imprecise("argparse nargs")
            if d["action"] == "append":
                old = self.deref(ns.attrs[d["dest"]])
                v = Seq("list", (list(old.items) if isinstance(old, Seq) else []) + [v])
            ns.attrs[d["dest"]] = v
        for d in p.pos:
            if d["nargs"] in ("*", "+"):
                if d["nargs"] == "+" and not rest:
                    exit_(self, 2)
                if rest or d["default"] is NONE:
                    ns.attrs[d["dest"]] = Seq("list", [self.ap_conv(d, x) for x in rest])
                rest = []
            elif d["nargs"] in (None, "?"):
                if rest:
                    ns.attrs[d["dest"]] = self.ap_conv(d, rest.pop(0))
                elif d["nargs"] is None:
                    exit_(self, 2)
            else:
                self.imprecise("argparse nargs")
        if any(d["required"] and d["dest"] not in seen for d in p.opts):
            exit_(self, 2)
        extra = rest + extra
        if known:
            return Seq("tuple", [ns, Seq("list", extra)])
        if extra:
            exit_(self, 2)
        return ns
