"""Round trip of every supported type.

For each type of the enumeration (type constructors to the stated depth, as a field of a dataclass and of a nested dataclass) an abstract value with opaque leaves is dumped and loaded
by interpreting the package; between both stands the axiomatised text layer.  The loaded object must be structurally equal to the original: every leaf the identical provenance term."""
from ..scen import *
from .. import tygen

R = "C05.round-trip"


def show_v(run, v):
    try:
        return show(run.freeze(v))[:200]
    except Exception:
        return repr(v)[:200]


def run(ck):
    ts = tygen.types(3 if ck.thorough else 2) + tygen.UNIONS
    if not ck.thorough:
        ts += [t for t in tygen.types(3, ["int", "Leaf"]) if t.depth() == 3]
    client_src(ck, "ty", tygen.module(ts))
    sizes = (0, 1, 2) if ck.thorough else (0, 2)
    jobs = []
    for i, t in enumerate(ts):
        for nested in (False, True):
            for mode in ("text", "file", "elided"):
                if nested and mode == "file" or t.depth() > 2 and (nested != (mode == "text")):
                    continue
                jobs.append(lambda ck, a=(i, t, nested, mode, sizes if t.depth() < 3 or ck.thorough else (1,) if mode == "elided" and t.op == "dict" else (2,)): one(ck, *a))
    # large and deeply nested values
    deep = tygen.Ty("Leaf")
    for k in ("opt", "list", "dict", "opt", "list", "dict"):
        deep = tygen.Ty(k, deep)
    wide = [(t, (12,)) for t in map(tygen.named, ("List[int]", "List[Leaf]", "Dict[str, int]", "List[Color]"))] + [(tygen.Ty("tuple", *[tygen.Ty(x) for x in ("int", "str", "bool", "float") * 3]), (2,)), (deep, (1,)), (tygen.Ty("Big"), (2,)), (tygen.Ty("list", tygen.Ty("Big")), (2,)),
             (tygen.Ty("Many"), (2,)), (tygen.Ty("ManyLit"), (2,)), (tygen.Ty("dict", tygen.Ty("Chain")), (1,))]
    client_src(ck, "wd", tygen.module([t for t, _ in wide]))
    for i, (t, sz) in enumerate(wide):
        for nested, mode in ((False, "text"), (True, "elided"), (False, "file")):
            if mode == "elided" and t.op in ("list", "dict"):
                continue
            jobs.append(lambda ck, a=(i, t, nested, mode, sz, "wd"): one(ck, *a))
    ck.map(jobs)
    ck.need(len(ts) // 2, R)


def one(ck, i, t, nested, mode, sizes, mod="ty"):
    inst = "%s, %s%s" % (t, "nested, " if nested else "", mode)

    def entry(run):
        g = tygen.Gen(run, mod, sizes)
        cls = run.lookup(mod + ".C%d" % i)
        v = run.construct(cls, [g.make(t)], {})
        if nested:
            cls = run.lookup(mod + ".N%d" % i)
            v = run.construct(cls, [v, g.s("int")], {})

        def go():
            if mode == "file":
                d = directory(run, "dir")
                p = T("P", T("join", run.pkey(d), C("f.ron")))
                call(run, "hyperstate.dump", v, p)
                return call(run, "hyperstate.load", cls, p)
            s = call(run, "hyperstate.dumps", v, **({"elide_defaults": TRUE} if mode == "elided" else {}))
            return call(run, "hyperstate.loads", cls, s)
        got, err = attempt(go)
        if err is not None:
            return ck.ob(R, inst, None if opaque_facts(run) else False, "dumping and loading %s fails: %s" % (show_v(run, v), exc_text(run, err)), loc(err.loc), ctx(run))
        ok = same(run, got, v)
        if ok is False and opaque_facts(run):
            ok = None
        ck.ob(R, inst, ok, "%s is loaded as %s" % (show_v(run, v), show_v(run, got)), "hyperstate/serde.py (hyperstate.serde.from_dict)", ctx(run))

    ck.explore(entry, Opts(faults=False, max_paths=2000))
