"""Histories of step, modify and resume.

All sequences (to the stated length) of the operations
  S  change the state (key, data, lazy field, nested object) and step()
  K  change only the key and step()
  R  step() again without any change
  L  resume, then step() with a new key without having read anything else
  C  change the config and then the state, step()
are interpreted with arbitrary values.  After each step() the checkpoint directory must contain exactly one entry, named after the current key, and interpreting the
resume path must give the current config, state and lazy field."""
import itertools
from ..scen import *
from .c01 import record, compare, config, config_doc
import re

R1, R2, R3 = "C04.one-checkpoint", "C04.resume-equals", "C04.no-directory-no-write"


def histories(n):
    return ["".join(h) for k in range(1, n + 1) for h in itertools.product("SKRLC", repeat=k)]


def entries(run, d):
    ch = run.fs_children(run.pkey(d))
    return [e for e in (ch or [])]


def name_ok(run, e, key):
    """does the entry name contain the decimal form of the key?"""
    last = e.a[-1]
    return any(x is key for x in subterms(run.freeze(last)))


def run(ck):
    client(ck, "ckpt")
    depth = 4 if ck.thorough else 3
    hs = histories(depth)

    def history(ck, h):
        def go(run):
            cfg = config(run)
            d = directory(run, "ckdir")
            init = directory(run, "initdir")
            conf = T("join", run.pkey(init), C("config.ron"))
            run.vfs[conf] = config_doc(run, cfg)
            m = call(run, "ckpt.manager", d, call(run, "ckpt.fresh", *record(run, 0)), init_path=T("P", conf))
            call(run, "ckpt.step", m)
            cur = list(record(run, 0))
            for i, op in enumerate(h, 1):
                r = record(run, i)
                prev = run.sym("n%d" % (i - 1), {"int"})
                if op != "R":
                    less(run, cur[0], r[0])
                if op in "L":
                    m = call(run, "ckpt.resume", d)
                if op == "C":
                    cfg = (sym(run, "lr%d" % i, "float"), sym(run, "ca%d" % i, "int"))
                    call(run, "ckpt.set_config", m, *cfg)
                if op in "SC":
                    cur = list(r)
                    call(run, "ckpt.advance", m, *cur)
                elif op in "KL":
                    cur[0] = r[0]
                    call(run, "ckpt.set_key", m, cur[0])
                _, err = attempt(lambda: call(run, "ckpt.step", m))
                inst = h[:i]
                if err is not None:
                    return ck.ob(R1, inst, False, "history %s: step() fails: %s" % (h[:i], exc_text(run, err)), loc(err.loc), ctx(run))
                es = entries(run, d)
                ck.ob(R1, inst, len(es) == 1 and name_ok(run, es[0], cur[0]),
                      "history %s: after step() the directory contains %s" % (h[:i], [show(e.a[-1]) for e in es]), "", ctx(run))
                got, err = attempt(lambda: call(run, "ckpt.observe", call(run, "ckpt.resume", d)))
                if err is not None:
                    return ck.ob(R2, inst, False, "history %s: resuming fails: %s" % (h[:i], exc_text(run, err)), loc(err.loc), ctx(run))
                ok, bad = compare(run, got, cur, cfg)
                ck.ob(R2, inst, ok, "history %s: resuming gives another %s: %s" % (h[:i], bad, show(run.freeze(got))[:250]), "", ctx(run))
        return go

    o = Opts(faults=False, max_paths=20000)
    ck.map([lambda ck, h=h: ck.explore(history(ck, h), o) for h in hs if len(h) == depth])

    # a state without lazy fields and with another key
    def plain(run):
        cfg = config(run)
        d, init = directory(run, "ckdir"), directory(run, "initdir")
        conf = T("join", run.pkey(init), C("config.ron"))
        run.vfs[conf] = config_doc(run, cfg)
        rs = [(nat(run, "n%d" % i), sym(run, "d%d" % i, "str"), sym(run, "a%d" % i, "int")) for i in (1, 2, 3)]
        less(run, rs[0][0], rs[1][0])
        less(run, rs[1][0], rs[2][0])
        for i, r in enumerate(rs):
            m = call(run, "ckpt.plain_manager", d, T("P", conf), *rs[0])
            call(run, "ckpt.plain_advance", m, *r)
            _, err = attempt(lambda: call(run, "ckpt.step", m))
            inst = "plain state, other key, step %d" % (i + 1)
            if err is not None:
                return ck.ob(R1, inst, False, "step() fails: %s" % exc_text(run, err), loc(err.loc), ctx(run))
            es = entries(run, d)
            ck.ob(R1, inst, len(es) == 1 and name_ok(run, es[0], r[0]), "after step() the directory contains %s" % [show(e.a[-1]) for e in es], "", ctx(run))
            got, err = attempt(lambda: call(run, "ckpt.plain_observe", call(run, "ckpt.plain_manager", d, T("P", conf), *rs[0])))
            if err is not None:
                return ck.ob(R2, inst, False, "resuming fails: %s" % exc_text(run, err), loc(err.loc), ctx(run))
            want = list(r) + [C("x"), cfg[0], C("cfg"), cfg[1]]
            rr = [same(run, g, w) for g, w in zip(items(run.deref(got)), want)]
            ck.ob(R2, inst, False if False in rr else None if None in rr else True, "resuming gives %s" % show(run.freeze(got))[:250], "", ctx(run))

    ck.explore(plain, o)

    # no checkpoint directory: no effects
    def nodir(run):
        cfg = config(run)
        init = directory(run, "initdir")
        conf = T("join", run.pkey(init), C("config.ron"))
        run.vfs[conf] = config_doc(run, cfg)
        m = call(run, "ckpt.make", T("P", conf), *record(run, 1))
        n = len(run.events)
        call(run, "ckpt.step", m)
        call(run, "ckpt.advance", m, *record(run, 2))
        call(run, "ckpt.step", m)
        bad = [e for e in run.events[n:] if e.op in ("write", "rename", "move", "mkdir", "rmtree", "unlink", "copy")
               or e.op == "open" and is_str_c(e.args[1]) and set(e.args[1].a[0]) & set("wax+")]
        ck.ob(R3, "step", not bad, "step() without a checkpoint directory performs %s" % [e.op for e in bad], loc(bad[0].loc) if bad else "", ctx(run))

    ck.explore(nodir, o)
    ck.need(10, R1)
    ck.need(10, R2)
    ck.need(1, R3)
