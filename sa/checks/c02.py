"""Atomic publication of checkpoints.

A client persists a checkpoint to a target directory; the call is interrupted by a process crash, or an I/O error
occurs, at every file-system effect (before and inside it), or the serialization of the config, of the state or of a lazy
field raises.  Typestate of the target on the abstract file system that is left: it is absent, or it is a directory from which the package's own
load path returns the persisted config, state and lazy field.  A second rule: what an interrupted step() leaves behind (staging directories, temporary copies) is never chosen when resuming."""
from ..scen import *
from .c01 import record, compare, config, config_doc, place

R1, R2, R3 = "C02.absent-or-complete", "C02.failed-serialization-leaves-nothing", "C02.leftovers-ignored"


def setup(run):
    cfg = config(run)
    init = directory(run, "initdir")
    conf = T("join", run.pkey(init), C("config.ron"))
    run.vfs[conf] = config_doc(run, cfg)
    rec = record(run, 1)
    parent = directory(run, "parent")
    target = T("join", run.pkey(parent), C("mine"))
    return cfg, rec, target, T("P", conf)


def judge(ck, run, cfg, rec, target, inst, where):
    ex = run.fs_known("exists", target)
    if ex is False:
        return ck.ob(R1, inst, True)
    got, err = attempt(lambda: call(run, "ckpt.observe", call(run, "ckpt.load_dir", T("P", target))))
    if err is not None:
        return ck.ob(R1, inst, False if ex else None, "%s: the target directory exists but does not load: %s" % (inst, exc_text(run, err)), where, ctx(run))
    ok, bad = compare(run, got, rec, cfg)
    ck.ob(R1, inst, ok, "%s: the target directory exists but %s differ(s) from what was persisted" % (inst, bad), where, ctx(run))


def run(ck):
    client(ck, "ckpt")

    def crash(run):
        cfg, rec, target, init = setup(run)
        m = call(run, "ckpt.make", init, *rec)
        call(run, "ckpt.observe", m)
        _, c = crashed(run, lambda: call(run, "ckpt.checkpoint", m, target))
        judge(ck, run, cfg, rec, target, "crash " + place(c) if c else "completed", loc(c.where) if c else "")
        if c is None:
            ck.ob(R1, "published on success", bool(run.fs_known("exists", target)), "checkpoint() returned without creating the target", "", ctx(run))

    def io(run):
        cfg, rec, target, init = setup(run)
        m = call(run, "ckpt.make", init, *rec)
        call(run, "ckpt.observe", m)
        _, f, r = faulted(run, lambda: call(run, "ckpt.checkpoint", m, target))
        if f is None:
            return
        judge(ck, run, cfg, rec, target, "%s in %s" % (f[0], f[1][2]), loc(f[1]))
        if r is None and run.fs_known("exists", target) is False:
            ck.ob(R1, "reported: %s in %s" % (f[0], f[1][2]), False, "an I/O error is swallowed: checkpoint() returns but nothing was published", loc(f[1]), ctx(run))

    def serial(what):
        def go(run):
            cfg, rec, target, init = setup(run)
            m = call(run, "ckpt.make", init, *rec)
            call(run, "ckpt.observe", m)
            call(run, "ckpt.fail_" + what, m)
            _, r = attempt(lambda: call(run, "ckpt.checkpoint", m, target))
            if r is None:
                return ck.ob(R2, what, None)
            ck.ob(R2, what, run.fs_known("exists", target) is False,
                  "serialization of the %s failed (%s) but the target was created" % (what, exc_text(run, r)), loc(r.loc), ctx(run))
        return go

    def leftovers(run):
        cfg = config(run)
        d = directory(run, "ckdir")
        init = directory(run, "initdir")
        conf = T("join", run.pkey(init), C("config.ron"))
        run.vfs[conf] = config_doc(run, cfg)
        r1, r2 = record(run, 1), record(run, 2)
        less(run, r1[0], r2[0])
        m = call(run, "ckpt.manager", d, call(run, "ckpt.fresh", *r1), init_path=T("P", conf))
        _, c = crashed(run, lambda: call(run, "ckpt.step", m))
        # the first step never completed: the run starts over with its initial state, or resumes the complete first checkpoint
        got, err = attempt(lambda: call(run, "ckpt.observe", call(run, "ckpt.manager", d, call(run, "ckpt.fresh", *r2), init_path=T("P", conf))))
        inst = "first step, crash " + place(c)
        if err is not None:
            return ck.ob(R3, inst, False, "resuming fails: " + exc_text(run, err), loc(c.where) if c else "", ctx(run))
        rs = [compare(run, got, r, cfg)[0] for r in ([r1, r2] if c else [r1])]
        ck.ob(R3, inst, True if True in rs else False if set(rs) == {False} else None,
              "resuming yields neither a fresh start nor the complete checkpoint: %s" % show(run.freeze(got))[:300], loc(c.where) if c else "", ctx(run))

    o = Opts(faults=False, max_paths=20000)
    ck.explore(crash, o)
    ck.explore(io, o)
    for w in ("blob", "state", "config"):
        ck.explore(serial(w), o)
    ck.explore(leftovers, o)
    ck.need(4, R1)
    ck.need(2, R2)
    ck.need(3, R3)
