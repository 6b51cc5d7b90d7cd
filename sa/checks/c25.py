"""Help texts.

help() is run by interpretation on config classes built from every supported type, with and without defaults and documentation, nested in structs, optional structs and lists, and inherited; the text printed (with an
identity model of terminal colours) is compared with the declaration: one line per field in order, indented below its struct, with name, type, default and documentation.  Then it is run for every field name of the
class, which must print each field of that name with its path, and for words that name no field, which must not fail."""
import re
from ..scen import *
from ..schemas import *
from .. import schemas
from .c14 import E1, E5, L1, N1, N2

R1, R2, R3 = "C25.every-field", "C25.described", "C25.query"
HEAD = schemas.HEAD + '''
from hyperstate import help as print_help


def show_all(cls):
    print_help(cls)


def show_some(cls, query):
    print_help(cls, query)
'''


def decl(t, seen, out, bases):
    for s in t.subs():
        decl(s, seen, out, bases)
    if t.op not in ("enum", "struct") or t.args[0] in seen:
        return
    seen.add(t.args[0])
    if t.op == "enum":
        out.append("class %s(Enum):\n%s\n" % (t.args[0], "\n".join("    %s = %r" % v for v in t.args[1])))
        return
    own = t.args[1]
    base = bases.get(t.args[0])
    if base:
        own = [f for f in own if f not in base]
    docs = ["    :param %s: %s" % (n, doc(t.args[0], n)) for n, _, _ in own if doc(t.args[0], n)]
    out.append("@dataclass\nclass %s%s:\n%s%s\n" % (t.args[0], "(Base)" if base else "", '    """About\n\n%s\n    """\n' % "\n".join(docs) if docs else "", "\n".join(field_src(*f) for f in own) or "    pass"))


def doc(cls, name):
    """the documentation of a field: some have none"""
    return None if name in ("u", "j") else "what %s of %s is" % (name, cls)


def atoms(t):
    """words that the description of a type has to contain"""
    if t.op == "struct" or t.op == "enum":
        return [t.args[0]]
    if t.op == "lit":
        return [str(v) for v in t.args]
    own = {"opt": ["Optional"], "list": ["List"], "dict": ["Dict", "str"], "idict": ["Dict", "int"], "tuple": ["Tuple"], "union": ["Union"]}.get(t.op, [t.op])
    return own + [x for s in t.subs() for x in atoms(s)]


def inside(t):
    """the struct whose fields are listed below a field of this type"""
    while t.op in ("opt", "list"):
        t = t.args[0]
    return t if t.op == "struct" else None


def listing(t, depth=0, path=()):
    """(depth, path, class, name, type, default text) of all fields, in order"""
    for n, ft, d in t.args[1]:
        yield depth, path, t.args[0], n, ft, d
        s = inside(ft)
        if s is not None:
            yield from listing(s, depth + 1, path + (n,))


TYPES = [(INT, "5"), (STR, '"text"'), (BOOL, "False"), (FLOAT, "0.25"), (opt(INT), "3"), (lst(STR), '["x", "y"]'), (dct(INT), '{"k": 1}'), (tup(INT, STR), '(1, "z")'), (L1, '"p"'), (union(INT, STR), "7"), (opt(lst(INT)), "[4]"), (E1, None), (opt(E5), None),
         (INT, "0"), (STR, '""'), (lst(INT), "[]"), (idct(lst(BOOL)), None), (lit(1, 2), "2")]
Q = st("Inner", ("k", INT, "1"), ("j", STR, '"s"'))


def classes():
    o = []
    for t, d in TYPES:
        for d in {d, None}:
            f = ("b", t, d) if d else ("b", t)
            o.append(st("Cfg", ("a", INT), f, ("u", BOOL, "True")))
            o.append(st("Cfg", ("s", st("S", f, ("u", STR, '"q"'))), ("z", INT, "3")))
            o.append(st("Cfg", ("a", INT), ("s", opt(st("S", ("k", INT), f)), "None")))
            o.append(st("Cfg", ("o", st("Out", ("u", STR), ("s", st("S", f)))), ("z", INT, "3")))
            o.append(st("Cfg", ("a", INT), ("s", lst(st("S", ("k", INT), f)))))
    o += [st("Cfg"), st("Cfg", ("s", st("S"))), st("Cfg", ("n", Q, "Inner(3)"), ("m", Q, "Inner()"), ("k", INT, "9")), st("Cfg", ("k", st("S", ("k", opt(st("S2", ("k", INT)))))), ("j", Q, "Inner()")),
          st("Cfg", ("o1", st("L1", ("o2", st("L2", ("o3", opt(st("L3", ("o4", lst(st("L4", ("deep", INT, "4"), ("j", STR)))), ("after4", INT)))), ("after3", STR, '"x"'))), ("after2", BOOL))), ("after1", INT, "1")),
          st("Cfg", ("learning_rate", FLOAT, "0.5"), ("lr", FLOAT, "0.25"), ("o", st("Out", ("lr", INT, "1"), ("learning_rates", lst(FLOAT)))))]
    return o


INH2 = '''

@dataclass
class Root:
    """
    :param first: root first
    :param fifth: root fifth
    """
    first: int = 1
    second: str = "s"


@dataclass
class Right(Root):
    """
    :param second: right second
    :param third: right third
    """
    third: bool = True


@dataclass
class Left(Root):
    """
    :param first: left first
    :param second: left second
    """


class Between(Left, Right):
    pass


@dataclass
class Cfg(Between):
    """About

    :param fourth: own fourth
    """
    fourth: int = 4
    fifth: int = 5
'''

BASE = [("first", INT, "1"), ("second", STR, '"s"')]


def run(ck):
    jobs = []
    for i, c in enumerate(classes()):
        src, seen = [], set()
        decl(c, seen, src, {})
        client_src(ck, "h%d" % i, HEAD + "\n" + "\n".join(src))
        jobs.append(lambda ck, a=("h%d" % i, c, {}): full(ck, *a))
        for q in sorted({x[3] for x in listing(c)}):
            jobs.append(lambda ck, a=("h%d" % i, c, q): query(ck, *a))
        if i % 5 == 0:
            for q in ("nothing_like_it", "s.b", "x", "B", "learning rate", "bb"):
                jobs.append(lambda ck, a=("h%d" % i, c, q): unknown(ck, *a))
    for w in (lambda s: opt(lst(s)), lambda s: lst(opt(s)), lambda s: lst(lst(s)), lambda s: lst(opt(lst(s)))):
        c = st("Cfg", ("a", INT), ("s", w(st("S", ("k", INT), ("o", w(st("S2", ("deep", INT, "4"), ("j", STR)))), ("after", INT)))), ("z", STR))
        i += 1
        src = []
        decl(c, set(), src, {})
        client_src(ck, "h%d" % i, HEAD + "\n" + "\n".join(src))
        jobs.append(lambda ck, a=("h%d" % i, c, {}): full(ck, *a))
        for q in sorted({x[3] for x in listing(c)}):
            jobs.append(lambda ck, a=("h%d" % i, c, q): query(ck, *a))
    # misspelled names
    c = st("Cfg", ("batch_size", INT, "3"), ("name", STR), ("optimizer", st("Opt", ("learning_rate", FLOAT, "0.5"), ("decay", FLOAT), ("warmup", opt(st("W", ("steps", INT, "9"), ("u", BOOL)))))), ("zz", BOOL))
    src = []
    decl(c, set(), src, {})
    client_src(ck, "typo", HEAD + "\n" + "\n".join(src))
    for f in listing(c):
        n = f[3]
        if len(n) > 4:
            for q in (n[:-1], n[1:], n[:2] + n[3:], n + "s", n[:3] + "x" + n[3:], n[:1] + n[2] + n[1] + n[3:], n.replace("_", "") if "_" in n else n + "_"):
                jobs.append(lambda ck, a=("typo", c, q, n): similar(ck, *a))
    # inheritance: documentation of the base, replaced by that of the derived class
    c = st("Cfg", *BASE + [("third", BOOL, "True")])
    client_src(ck, "inh", HEAD + '''

@dataclass
class Base:
    """
    :param first: base first
    :param second: base second
    """
    first: int = 1
    second: str = "s"


@dataclass
class Cfg(Base):
    """
    :param second: derived second
    :param third: derived third
    """
    third: bool = True

''')
    docs = {"first": "base first", "second": "derived second", "third": "derived third"}
    jobs.append(lambda ck: full(ck, "inh", c, docs))
    c2 = st("Cfg", *BASE + [("third", BOOL, "True"), ("fourth", INT, "4"), ("fifth", INT, "5")])
    client_src(ck, "inh2", HEAD + INH2)
    jobs.append(lambda ck: full(ck, "inh2", c2, {"first": "left first", "second": "left second", "third": "right third", "fourth": "own fourth", "fifth": "root fifth"}))
    ck.map(jobs)
    ck.need(100, R1)
    ck.need(100, R2)
    ck.need(100, R3)


def opts():
    return Opts(faults=False, rec_default=40, max_paths=200, models={"click.style": lambda run, a, k, n: run.to_str(a[0]), "click.unstyle": lambda run, a, k, n: a[0]})


def printed(run, f):
    """the lines printed, or the exception"""
    n = len(run.events)
    _, err = attempt(f)
    if err is not None:
        return None, err
    out = []
    for e in run.events[n:]:
        if e.op == "print":
            t = run.cat([y for x in e.raw for y in (C(" "), run.to_str(x))][1:]) if e.raw else C("")
            out.extend((t.a[0] if is_str_c(t) else show(t)).split("\n"))
    return out, None


def parts(line):
    """indentation, name or path, rest, documentation"""
    m = re.match(r"( *)([\w.]+):(.*?)(?:  +# ?(.*))?$", line)
    return (len(m.group(1)), m.group(2), m.group(3).strip(), m.group(4)) if m else None


WHERE = "hyperstate/schema/help.py (hyperstate.schema.help.%s)"


def described(ck, run, inst, p, f, docs, where, line):
    depth, path, cls, n, t, d = f
    ty, _, dv = p[2].partition(" = ")
    pos, ok = 0, True
    for x in atoms(t):
        m = re.search(r"(?<!\w)%s(?!\w)" % re.escape(x), ty[pos:])
        ok = ok and bool(m)
        pos += m.end() if m and t.op not in ("lit", "enum") else 0
    ck.ob(R2, inst + ", type of " + n, ok, "the type %r of %s is described as %r" % (t, n, ty), where, ctx(run))
    if inside(t) is not None:
        return
    if d is not None and d != "None":
        ck.ob(R2, inst + ", default of " + n, dv == repr(eval(d, {})), "the default %s of %s is described as %r" % (d, n, dv), where, ctx(run))
    if d is None:
        ck.ob(R2, inst + ", default of " + n, not dv, "%s has no default but is described with %r" % (n, dv), where, ctx(run))
    want = docs.get(n) if docs else doc(cls, n)
    ck.ob(R2, inst + ", documentation of " + n, (p[3] or "").strip() == (want or ""), "the line %r does not contain exactly the documentation %r" % (line, want), where, ctx(run))


def full(ck, mod, c, docs):
    inst = repr(c)

    def entry(run):
        lines, err = printed(run, lambda: call(run, mod + ".show_all", run.lookup(mod + ".Cfg")))
        if err is not None:
            return ck.ob(R1, inst, None if opaque_facts(run) else False, "help fails: %s" % exc_text(run, err), loc(err.loc), ctx(run))
        where = WHERE % "print_schema"
        want = list(listing(c))
        ps = [parts(x) for x in lines if x.strip()]
        names = [p and p[1] for p in ps]
        ok = names == [f[3] for f in want]
        ck.ob(R1, inst, ok, "the help lists the fields %s, expected %s" % (names, [f[3] for f in want]), where, ctx(run))
        if not ok:
            return
        ind = {}
        for p, f in zip(ps, want):
            ind.setdefault(f[0], set()).add(p[0])
        ck.ob(R1, inst + ", nesting", all(len(v) == 1 for v in ind.values()) and [min(v) for v in ind.values()] == sorted(min(v) for v in ind.values()) and len({min(v) for v in ind.values()}) == len(ind), "the indentation %s does not show the nesting" % ind, where, ctx(run))
        for p, f, line in zip(ps, want, [x for x in lines if x.strip()]):
            described(ck, run, inst, p, f, docs, where, line)
    ck.explore(entry, opts())


def query(ck, mod, c, q):
    inst = "%r, help for %s" % (c, q)

    def entry(run):
        lines, err = printed(run, lambda: call(run, mod + ".show_some", run.lookup(mod + ".Cfg"), C(q)))
        if err is not None:
            return ck.ob(R3, inst, None if opaque_facts(run) else False, "help fails: %s" % exc_text(run, err), loc(err.loc), ctx(run))
        where = WHERE % "help"
        lines = [x for x in lines if x.strip()]
        ps = [parts(x) for x in lines]
        for f in listing(c):
            if f[3] != q:
                continue
            path = ".".join(f[1] + (q,))
            mine = [i for i, p in enumerate(ps) if p and p[0] == 0 and p[1] == path]
            ok = len(mine) == 1
            ck.ob(R3, inst + ", " + path, ok, "the field %s is described %d times: %s" % (path, len(mine), lines[:4]), where, ctx(run))
            if not ok:
                continue
            described(ck, run, inst + ", " + path, ps[mine[0]], f, None, where, lines[mine[0]])
            s = inside(f[4])
            if s is not None:
                got = []
                for p in ps[mine[0] + 1:]:
                    if not p or p[0] == 0:
                        break
                    got.append(p[1])
                ck.ob(R3, inst + ", fields of " + path, got == [n for n, _, _ in s.args[1]], "below %s there are the fields %s" % (path, got), where, ctx(run))
        exact = [p and p[1].split(".")[-1] == q for p in ps if p and p[0] == 0]
        ck.ob(R3, inst + ", order", exact == sorted(exact, reverse=True), "other fields are described before the one asked for: %s" % [p and p[1] for p in ps], where, ctx(run))
    ck.explore(entry, opts())


def unknown(ck, mod, c, q):
    inst = "%r, help for %s" % (c, q)

    def entry(run):
        lines, err = printed(run, lambda: call(run, mod + ".show_some", run.lookup(mod + ".Cfg"), C(q)))
        ck.ob(R3, inst, err is None, "help fails: %s" % (err is not None and exc_text(run, err)), err is not None and loc(err.loc) or "", ctx(run))
    ck.explore(entry, opts())


def similar(ck, mod, c, q, name):
    inst = "%r, help for %s" % (c, q)

    def entry(run):
        lines, err = printed(run, lambda: call(run, mod + ".show_some", run.lookup(mod + ".Cfg"), C(q)))
        if err is not None:
            return ck.ob(R3, inst, None if opaque_facts(run) else False, "help fails: %s" % exc_text(run, err), loc(err.loc), ctx(run))
        ps = [parts(x) for x in lines if x.strip()]
        f = [f for f in listing(c) if f[3] == name][0]
        ok = bool(ps) and bool(ps[0]) and ps[0][1] == ".".join(f[1] + (name,))
        ck.ob(R3, inst + ", closest field", ok, "the first line describes %s, not the only field with a similar name, %s" % (ps and ps[0] and ps[0][1], name), WHERE % "help", ctx(run))
        if ok:
            described(ck, run, inst + ", " + name, ps[0], f, None if inside(f[4]) is None else {}, WHERE % "help", lines[0])
    ck.explore(entry, opts())
