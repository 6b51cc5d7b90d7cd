"""Crash-safe checkpoint rotation, decided by path-sensitive abstract interpretation.

A client performs one or more completed steps, changes the state, and calls step() again; the process is
killed at every file-system effect of that call (before it, and in the middle of effects that are not
atomic: writes, recursive removals, copies across devices).  On the abstract file system that is left, the
package's own resume path is interpreted.  The obligation: the value it returns is the complete record
(config, state, blob) of the last completed step, or of the interrupted one, never a mixture, never an
error and never the initial state."""
from ..scen import *

F = ("step", "data", "w.v", "inner.a", "inner.b", "config.lr", "config.name", "config.inner.a")


def record(run, i):
    return (nat(run, "n%d" % i), sym(run, "data%d" % i, "str"), sym(run, "blob%d" % i, "int"), sym(run, "a%d" % i, "int"))


def compare(run, got, rec, cfg):
    it = items(run.deref(got))
    if it is None or len(it) != len(F):
        return None, "?"
    want = list(rec) + [C("x"), cfg[0], C("cfg"), cfg[1]]
    rs = [same(run, g, w) for g, w in zip(it, want)]
    bad = [f for f, r in zip(F, rs) if r is False]
    if bad:
        return False, ", ".join(bad)
    return (None if None in rs else True), ""


def config(run):
    """the configuration of the run: what the overrides make of it"""
    lr, a = sym(run, "lr", "float"), sym(run, "ca", "int")
    return lr, a


def judge(ck, run, got, err, recs, cfg, rule, inst, where, p=None):
    if err is not None:
        return ck.ob(rule, inst, False, "after a crash %s, resuming fails: %s" % (inst, exc_text(run, err)), where, ctx(run))
    rs = [compare(run, got, r, cfg) for r in recs]
    if any(r is True for r, _ in rs):
        return ck.ob(rule, inst, True)
    if all(r is False for r, _ in rs):
        return ck.ob(rule, inst, False, "after a crash %s, resuming yields neither the previous nor the new record: got %s"
                     % (inst, show(run.freeze(got))[:300]), where, ctx(run))
    return ck.ob(rule, inst, None)


def place(c):
    if c is None:
        return "none"
    return "%s in %s" % (c.what, c.where[2])


def run(ck):
    client(ck, "ckpt")
    gens = 3 if ck.thorough else 2

    def entry(run):
        cfg = config(run)
        d = directory(run, "ckdir")
        init = directory(run, "initdir")
        run.vfs[T("join", run.pkey(init), C("config.ron"))] = config_doc(run, cfg)
        recs = [record(run, i) for i in range(1, gens + 2)]
        for x, y in zip(recs, recs[1:]):
            less(run, x[0], y[0])
        m = call(run, "ckpt.manager", d, call(run, "ckpt.fresh", *recs[0]), init_path=T("P", T("join", run.pkey(init), C("config.ron"))))
        call(run, "ckpt.step", m)
        for r in recs[1:gens - 1]:
            call(run, "ckpt.advance", m, *r)
            call(run, "ckpt.step", m)
        prev, new = recs[gens - 2], recs[gens - 1]
        call(run, "ckpt.advance", m, *new)
        _, c = crashed(run, lambda: call(run, "ckpt.step", m))
        old = [prev, new] if c is not None else [new]
        got, err = attempt(lambda: call(run, "ckpt.observe", call(run, "ckpt.resume", d)))
        judge(ck, run, got, err, old, cfg, "C01.resume-after-crash", place(c), loc(c.where) if c else "")
        if err is not None:
            return
        # the resumed run continues: a further step, and another resume
        m2 = call(run, "ckpt.resume", d)
        nxt = recs[gens]
        call(run, "ckpt.advance", m2, *nxt)
        _, err = attempt(lambda: call(run, "ckpt.step", m2))
        got = None
        if err is None:
            got, err = attempt(lambda: call(run, "ckpt.observe", call(run, "ckpt.resume", d)))
        judge(ck, run, got, err, [nxt], cfg, "C01.continue-after-crash", place(c), loc(c.where) if c else "")

    ck.explore(entry, Opts(faults=False, max_paths=20000))
    ck.need(6, "C01.resume-after-crash")
    ck.need(6, "C01.continue-after-crash")


def config_doc(run, cfg):
    d = Dict()
    i = Dict()
    i.entries[C("a")] = (C("a"), cfg[1])
    d.entries[C("lr")] = (C("lr"), cfg[0])
    d.entries[C("inner")] = (C("inner"), i)
    t = T("ron", T("config document"))
    run.tags[("ron", t)] = d
    return t
