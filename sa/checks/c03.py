"""Which checkpoint is resumed.

Three checkpoints with arbitrary keys are written to one directory by the analysed package itself, next to one unrelated entry of each listed shape, and listed in
every relative order; the resume path is then interpreted.  It must yield the record with the largest key.  A second rule enumerates the sources of config and state
(checkpoint, init directory, init file, nothing) and requires the documented precedence."""
import itertools
from ..scen import *
from .c01 import record, compare, config, config_doc, F

R1, R2 = "C03.newest", "C03.precedence"
DIRS = ["backup-step999999999999", "latest", "latest-notes-and-more-text", "latest-step999999999999.bak", "best", "x",
        "latest-step999999999999.f0e1d2c3-0123-4567-89ab-abcdef012345.tmp", "latest-", "old-latest-step999999999999", "999999999999", "latest-step999999999999-old", ".latest-step999999999999"]
FILES = ["latest-step999999999999", "events.log", "latest-step999999999999.tmp"]


def listing(pos, junk):
    def hook(p, out):
        j = [x for x in out if x is junk]
        o = [x for x in out if x is not junk]
        return o[:pos] + j + o[pos:]
    return hook


PERMS = {n: list(itertools.permutations(range(n))) for n in (1, 2, 3, 4)}


def run(ck):
    client(ck, "ckpt")

    def newest(ck, kind, name, keys):
        def go(run):
            cfg = config(run)
            d = directory(run, "ckdir")
            dk = run.pkey(d)
            init = directory(run, "initdir")
            conf = T("join", run.pkey(init), C("config.ron"))
            run.vfs[conf] = config_doc(run, cfg)
            recs = [record(run, i) for i in range(1, keys + 1)]
            perm = PERMS[keys][run.choose("order", len(PERMS[keys]))]
            for x, y in zip(perm, perm[1:]):
                less(run, recs[x][0], recs[y][0])
            want = recs[perm[-1]]
            ms = [call(run, "ckpt.manager", d, call(run, "ckpt.fresh", *r), init_path=T("P", conf)) for r in recs]
            for m in ms:
                call(run, "ckpt.step", m)
            inst = "no other entries"
            if kind:
                junk = T("join", dk, C(name))
                if kind == "dir":
                    run.vdirs[junk] = True
                    run.vfs[T("join", dk, C(name), C("config.ron"))] = T("partial", T("junk"))
                else:
                    run.vfs[junk] = T("partial", T("junk"))
                run.listing_hook = listing(run.choose("position", keys + 1), junk)
                inst = "%s %s" % ({"dir": "directory", "file": "file"}[kind], name)
            got, err = attempt(lambda: call(run, "ckpt.observe", call(run, "ckpt.resume", d)))
            if err is not None:
                return ck.ob(R1, inst, False, "resuming fails: " + exc_text(run, err), loc(err.loc), ctx(run))
            ok, bad = compare(run, got, want, cfg)
            ck.ob(R1, inst, ok, "not the newest checkpoint is resumed: %s differ(s), got %s" % (bad, show(run.freeze(got))[:200]), loc(where(run)), ctx(run))
        return go

    o = Opts(faults=False, max_paths=5000)
    n = 3 if ck.thorough else 2
    js = [(None, None, 3)] + [("dir", x, n) for x in DIRS] + [("file", x, n) for x in FILES]
    jobs = [lambda ck, j=j: ck.explore(newest(ck, *j), o) for j in js]

    # ------------------------------------------------------------------ precedence
    def prec(ck, ckpt, init):
        inst = "%s, init_path %s" % ("with checkpoint" if ckpt else "no checkpoint", init)

        def go(run):
            cfg, icfg = config(run), (sym(run, "ilr", "float"), sym(run, "ica", "int"))
            c0, irec, rec = record(run, 1), record(run, 2), record(run, 3)
            d, src, other = directory(run, "ckdir"), directory(run, "initdir"), directory(run, "other")
            conf = T("join", run.pkey(src), C("config.ron"))
            run.vfs[conf] = config_doc(run, cfg)
            conf2 = T("join", run.pkey(other), C("config.ron"))
            t = T("ron", T("init config document"))
            i = Dict()
            i.entries[C("a")] = (C("a"), icfg[1])
            dd = Dict()
            dd.entries[C("lr")] = (C("lr"), icfg[0])
            dd.entries[C("inner")] = (C("inner"), i)
            run.tags[("ron", t)] = dd
            run.vfs[conf2] = t
            # a checkpoint directory made for init_path
            idir = T("join", run.pkey(other), C("ck"))
            m = call(run, "ckpt.make", T("P", conf2), *irec)
            call(run, "ckpt.checkpoint", m, idir)
            if ckpt:
                m = call(run, "ckpt.manager", d, call(run, "ckpt.fresh", *c0), init_path=T("P", conf))
                call(run, "ckpt.step", m)
            ip = {"none": NONE, "file": T("P", conf2), "dir": T("P", idir), "str": idir}[init]
            ck_dir = d if ckpt != "unset" else NONE
            got, err = attempt(lambda: call(run, "ckpt.observe",
                               call(run, "ckpt.default_manager", *rec, checkpoint_dir=d, init_path=ip)))
            if err is not None:
                return ck.ob(R2, inst, False, "loading fails: " + exc_text(run, err), loc(err.loc), ctx(run))
            if ckpt:
                want, wc = c0, cfg
            elif init in ("dir", "str"):
                want, wc = irec, icfg
            elif init == "file":
                want, wc = rec, icfg
            else:
                want, wc = rec, (C(0.25), C(7))
            ok, bad = compare(run, got, want, wc)
            ck.ob(R2, inst, ok, "%s: wrong source of %s: got %s" % (inst, bad, show(run.freeze(got))[:200]), "", ctx(run))
        return go

    for ckpt in (False, True):
        for init in ("none", "file", "dir", "str"):
            jobs.append(lambda ck, a=(ckpt, init): ck.explore(prec(ck, *a), o))
    ck.map(jobs)

    # setting the checkpoint directory later, and no checkpoint directory at all
    def later(run):
        cfg = config(run)
        d, src = directory(run, "ckdir"), directory(run, "initdir")
        conf = T("join", run.pkey(src), C("config.ron"))
        run.vfs[conf] = config_doc(run, cfg)
        c0, rec = record(run, 1), record(run, 2)
        call(run, "ckpt.step", call(run, "ckpt.manager", d, call(run, "ckpt.fresh", *c0), init_path=T("P", conf)))
        m = call(run, "ckpt.default_manager", *rec)
        call(run, "ckpt.set_dir", m, d)
        got, err = attempt(lambda: call(run, "ckpt.observe", m))
        if err is not None:
            return ck.ob(R2, "directory set later", False, "loading fails: " + exc_text(run, err), loc(err.loc), ctx(run))
        ok, bad = compare(run, got, c0, cfg)
        ck.ob(R2, "directory set later", ok, "wrong source of %s" % bad, "", ctx(run))

    ck.explore(later, o)
    ck.need(8, R1)
    ck.need(5, R2)


def where(run):
    for e in reversed(run.events):
        if e.op == "listdir":
            return e.loc
    return None
