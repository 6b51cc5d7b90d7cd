"""Command line entry points.

Programs decorated with command and stateful_command are run by interpretation (with an abstract model of argparse) on command lines that combine config files, checkpoints and overrides of every kind, valid or
broken at any place, in any order, with the information options, and with programs that return, fail or exit.  The program must run exactly once with exactly the config (or manager) that the library
gives for these files and overrides, or not at all; what it returns or raises must come out, and every failure must end in an error."""
from ..scen import *
from .. import tygen
from .c16 import exit_code

R1, R2, R3, R4, R5 = "C23.runs-once", "C23.not-on-failure", "C23.failure-is-error", "C23.info-does-not-run", "C23.outcome"
SRC = tygen.HEAD + '''
from hyperstate import command, stateful_command, StateManager
import hyperstate

calls = []
BEHAVIOUR = "return"


class Crashed(Exception):
    pass


def outcome(x):
    if BEHAVIOUR == "return":
        return ("result", x)
    if BEHAVIOUR == "none":
        return None
    if BEHAVIOUR == "exit":
        raise SystemExit(3)
    raise Crashed("program")


@dataclass
class Net:
    width: int = 8
    acts: List[str] = field(default_factory=list)


@dataclass
class Cfg:
    bs: int
    lr: float = 0.5
    net: Net = field(default_factory=Net)
    name: Optional[str] = None


@dataclass
class Auto:
    """:param bs: the batch size"""
    bs: int = 3
    lr: float = 0.5
    net: Net = field(default_factory=Net)
    name: Optional[str] = None


@dataclass
class St:
    step: int
    epoch: int
    seen: int


def init(config, ctx):
    return St(5, 7, config.bs)


def content(c):
    return (c.bs, c.lr, c.net.width, c.net.acts, c.name)


@command(Cfg)
def main_req(cfg):
    calls.append(content(cfg))
    return outcome(cfg.bs)


@command(Auto)
def main_auto(cfg):
    calls.append(content(cfg))
    return outcome(cfg.bs)


def details(sm):
    sm.step()
    return (content(sm.config), sm.state.step, sm.state.epoch, sm.state.seen, str(sm.checkpoint_dir))


@stateful_command(Cfg, St, init)
def smain_req(sm):
    calls.append(details(sm))
    return outcome(1)


@stateful_command(Auto, St, init, "epoch")
def smain_auto(sm):
    calls.append(details(sm))
    return outcome(1)


@stateful_command(Auto, St, initial_state=init, checkpoint_key="epoch")
def smain_lazy(sm):
    calls.append(("not looked at",))
    return outcome(1)


def expect(cls, file, overrides):
    return content(hyperstate.load(cls, file=file, overrides=overrides))


def sexpect(cls, init_path, checkpoint_dir, overrides, key):
    return details(StateManager(cls, St, init, init_path=init_path, checkpoint_dir=checkpoint_dir, overrides=overrides, checkpoint_key=key))


def ncalls():
    return list(calls)
'''
GOOD = ["none", "empty", "partial", "full"]
BROKEN = ["unknown field", "unknown nested", "two unknown", "missing field", "wrong type", "null struct", "no file", "list"]
OVERRIDES = [[], ["bs=4"], ["lr=0.25", "net.width=3"], ["net.acts=[\"a\"]", "bs=9", "name=\"x\""]]
BAD_OVERRIDES = [["zz=1"], ["net.zz=1"], ["bs=4", "zz=1", "yy=2"], ["bs=abc"], ["net=4"], ["bs=4", "lr=[1]"], ["zz.width=1"], ["net.width.x=1"]]
NO_EQ = [["bs"], ["net.width"], ["nonsense"], ["bs=4", "lr"], ["lr", "bs=4"]]


def doc(run, kind, cls):
    g = tygen.Gen(run, "cl")
    full = [("bs", g.s("int")), ("lr", g.s("float")), ("net", struct("Net", [("width", g.s("int")), ("acts", Seq("list", [g.s("str")]))])), ("name", g.s("str"))]
    d = {"empty": [], "partial": [full[0]], "full": full, "unknown field": full + [("what", C(1))], "two unknown": full + [("what", C(1)), ("lrr", C(2))],
         "unknown nested": full[:2] + [("net", struct("Net", [("widht", C(1))]))], "missing field": full[1:], "wrong type": full[1:] + [("bs", Seq("list", []))], "null struct": full[:2] + [("net", NONE)], "list": None}[kind]
    return Seq("list", [C(1)]) if d is None else struct(cls, d)


def opts(**kw):
    return Opts(faults=False, rec_default=30, max_paths=300, argv=[], models={"click.style": lambda run, a, k, n: run.to_str(a[0]), "click.unstyle": lambda run, a, k, n: a[0]}, globals={"cl": {k: C(v) for k, v in kw.items()}})


def run(ck):
    client_src(ck, "cl", SRC)
    jobs = []

    def j(f, *a, **k):
        jobs.append(lambda ck: f(ck, *a, **k))
    for main in ("main_req", "main_auto"):
        for f in GOOD + BROKEN:
            for o in OVERRIDES + BAD_OVERRIDES + NO_EQ:
                j(plain, main, f, o, "first")
        for f in ("full", "unknown field", "none", "missing field"):
            for o in OVERRIDES[1:] + BAD_OVERRIDES[:3]:
                for order in ("last", "verbose", "verbose last", "="):
                    j(plain, main, f, o, order)
        for f in ("full", "unknown field", "no file", "none"):
            for i in INFO:
                for before in (True, False):
                    j(info, main, f, i, before)
        for b in ("none", "exit", "raise"):
            for f in ("full", "none"):
                for v in ("first", "verbose"):
                    j(plain, main, f, ["bs=4"], v, behaviour=b)
    for main in MANY:
        for f in GOOD + BROKEN[:4] + ["no file"]:
            for c in ("no dir", "empty dir", "checkpoint"):
                for r in (False, True):
                    if f != "none" and r and c != "empty dir":
                        continue
                    for o in OVERRIDES[:3:2] + BAD_OVERRIDES[:1] + NO_EQ[:1]:
                        j(stateful, main, f, r, c, o)
        for b in ("none", "exit", "raise"):
            j(stateful, main, "full", False, "empty dir", [], behaviour=b)
            j(stateful, main, "none", True, "no dir", ["bs=4"], behaviour=b)
        for i in INFO:
            j(info, main, "full", i, True, extra=["--checkpoint-dir"])
    for main in ("main_auto", "smain_auto"):
        for w in (["--nope"], ["--config"], ["-h"], ["--help"], ["bs=4", "--nope", "lr=2"]) + ((["--checkpoint-dir"], ["--resume-from"]) if main == "smain_auto" else (["--checkpoint-dir", "x"],)):
            j(usage, main, w)
    ck.map(jobs)
    ck.need(60, R1)
    ck.need(60, R2)
    ck.need(60, R3)
    ck.need(20, R4)
    ck.need(20, R5)


INFO = [["--hps-info"], ["--hps-info", "bs"], ["--hps-info", "net"], ["--hps-info", "nothing"], ["--hps-info="], ["--hps-info", "net.width"]]
MANY = {"smain_req": ("Cfg", "step"), "smain_auto": ("Auto", "epoch"), "smain_lazy": ("Auto", "epoch")}
WHERE = "hyperstate/command.py (%s)"


def words(ws):
    return [C(w) if isinstance(w, str) else w for w in ws]


def config_args(run, d, f, cls):
    """(command line words, path) of the config file"""
    if f == "none":
        return [], None
    p = under(d, "config file.ron")
    if f != "no file":
        run.vfs[p] = document(run, doc(run, f, cls))
    run.assume(T("truth", p), True)
    return [C("--config"), p], p


def launch(run, main, ws):
    run.words = ws
    got, err = attempt(lambda: call(run, "cl." + main))
    return got, err, [run.freeze(x) for x in items(run.deref(call(run, "cl.ncalls")))]


def failed(run, err):
    return err is not None and exit_code(run, err) != 0


def what(run, got, err):
    return "ends with %s" % exc_text(run, err) if err is not None else "returns %s" % show(run.freeze(got))[:80]


def outcome(ck, run, inst, behaviour, result, got, err, where):
    if behaviour == "return":
        want = T("tuple", C("result"), run.freeze(result))
        ck.ob(R5, inst, err is None and same(run, got, Seq("tuple", [C("result"), result])), "the program returns %s but the command %s" % (show(want)[:80], what(run, got, err)), where, ctx(run))
    elif behaviour == "none":
        ck.ob(R5, inst, err is None and got is NONE, "the program returns None but the command %s" % what(run, got, err), where, ctx(run))
    elif behaviour == "exit":
        ck.ob(R5, inst, err is not None and exit_code(run, err) == 3, "the program exits with code 3 but the command %s" % what(run, got, err), where, ctx(run))
    else:
        v = err is not None and run.deref(err.value)
        ck.ob(R5, inst, isinstance(v, Inst) and v.cls.qual == "cl.Crashed" or failed(run, err) and err is not None and exit_code(run, err) is not None, "the program raises but the command %s" % what(run, got, err), where, ctx(run))


def plain(ck, main, f, o, order, behaviour="return"):
    cls = "Cfg" if main == "main_req" else "Auto"
    inst = "%s, config file: %s, overrides %s%s%s" % (main, f, " ".join(o) or "none", "" if order == "first" else ", " + order, "" if behaviour == "return" else ", program: " + behaviour)

    def entry(run):
        d = directory(run, "dir")
        cw, p = config_args(run, d, f, cls)
        if order == "=" and p is not None:
            return
        ow = words(o)
        ws = {"first": cw + ow, "last": ow + cw, "verbose": [C("-v")] + cw + ow, "verbose last": cw + ow + [C("--verbose")], "=": cw + ow}[order]
        want, werr = None, None
        bad = o in NO_EQ
        if not bad:
            want, werr = attempt(lambda: call(run, "cl.expect", run.lookup("cl." + cls), NONE if p is None else T("P", p), Seq("list", words(o))))
            want = want and run.freeze(want)
        got, err, calls = launch(run, main, ws)
        judge(ck, run, inst, bad or werr is not None, want, calls, got, err, behaviour, lambda: want_bs(run, want), WHERE % "command")
    ck.explore(entry, opts(BEHAVIOUR=behaviour))


def want_bs(run, want):
    return items(want)[0]


def judge(ck, run, inst, bad, want, calls, got, err, behaviour, result, where):
    if bad:
        ck.ob(R2, inst, not calls, "the program runs although its config cannot be loaded", where, ctx(run))
        ck.ob(R3, inst, failed(run, err), "the config cannot be loaded but the command %s" % what(run, got, err), where, ctx(run))
        return
    if not calls and failed(run, err):
        return ck.ob(R1, inst, None if opaque_facts(run) else False, "the program is not run: the command %s" % what(run, got, err), where, ctx(run))
    ok = len(calls) == 1 and same(run, calls[0], want)
    ck.ob(R1, inst, None if ok is not True and opaque_facts(run) else ok, "the program is run with %s, expected once with %s" % (", ".join(show(c)[:150] for c in calls) or "nothing", show(want)[:150]), where, ctx(run))
    outcome(ck, run, inst, behaviour, result(), got, err, where)


def info(ck, main, f, i, before, extra=None):
    cls = "Cfg" if main.endswith("req") else "Auto"
    inst = "%s %s, config file: %s%s%s" % (main, " ".join(i), f, "" if before else ", after the operands", "" if not extra else ", with checkpoints")

    def entry(run):
        d = directory(run, "dir")
        cw, p = config_args(run, d, f, cls)
        if extra:
            cw = cw + [C(extra[0]), under(d, "ckpt")]
        files = {q: run.freeze(v) for q, v in run.vfs.items()}
        ws = words(i) + cw if before else cw + [C("bs=4")] + words(i)
        got, err, calls = launch(run, main, ws)
        where = WHERE % ("stateful_command" if main.startswith("s") else "command")
        ck.ob(R4, inst, not calls, "the program is run", where, ctx(run))
        ck.ob(R4, inst + ", exit", err is None or exit_code(run, err) == 0, "asking for information %s" % what(run, got, err), where, ctx(run))
        same_ = {q: run.freeze(v) for q, v in run.vfs.items()} == files and under(d, "ckpt") not in run.vdirs
        ck.ob(R4, inst + ", files", same_, "asking for information changes files", where, ctx(run))
    ck.explore(entry, opts(BEHAVIOUR="return"))


def usage(ck, main, ws):
    inst = "%s %s" % (main, " ".join(ws))

    def entry(run):
        got, err, calls = launch(run, main, words(ws))
        ck.ob(R4, inst, not calls and err is not None and (exit_code(run, err) == 0) == (ws[0] in ("-h", "--help")), "the command %s after %d runs of the program" % (what(run, got, err), len(calls)), "hyperstate/command.py (_parse_args)", ctx(run))
    ck.explore(entry, opts(BEHAVIOUR="return"))


def stateful(ck, main, f, resume, ckpt, o, behaviour="return"):
    cls, key = MANY[main]
    inst = "%s, config file: %s%s, checkpoints: %s, overrides %s%s" % (main, f, ", --resume-from" if resume else "", ckpt, " ".join(o) or "none", "" if behaviour == "return" else ", program: " + behaviour)

    def entry(run):
        d = directory(run, "dir")
        cw, p = config_args(run, d, f, cls)
        path = p

        def checkpoint(c, n):
            run.vdirs[c] = True
            run.vfs[under(c, "config.ron")] = document(run, doc(run, "full", cls))
            run.vfs[under(c, "state.ron")] = document(run, struct("St", [("step", C(n)), ("epoch", C(n)), ("seen", C(n + 1))]), "statedoc")
        if resume:
            old = under(d, "old")
            run.assume(T("truth", old), True)
            checkpoint(old, 40)
            cw += [C("--resume-from"), old]
            path = path or old
        dirs = [None, None]
        if ckpt != "no dir":
            for i in range(2):      # one for the command, an identical one for the expectation
                dirs[i] = under(d, "run%d" % i)
                run.assume(T("truth", dirs[i]), True)
                run.vdirs[dirs[i]] = True
            if ckpt == "checkpoint":
                g = document(run, doc(run, "full", cls))
                for c in dirs:
                    n = under(c, "latest-%s%012d" % (key, 30))
                    checkpoint(n, 30)
                    run.vfs[under(n, "config.ron")] = g
            cw += [C("--checkpoint-dir"), dirs[0]]
        both = resume and p is not None
        bad = both or o in NO_EQ
        want, werr = None, None
        if not bad:
            want, werr = attempt(lambda: call(run, "cl.sexpect", run.lookup("cl." + cls), NONE if path is None else T("P", path), NONE if dirs[1] is None else T("P", dirs[1]), Seq("list", words(o)), C(key)))
            want = want and run.freeze(want)
            if werr is not None and f in ("none", "full") and not o and not main.endswith("req"):
                return ck.ob(R1, inst, False, "the manager cannot be used: %s" % exc_text(run, werr), loc(werr.loc), ctx(run))
        before = {q: run.freeze(v) for q, v in run.vfs.items()}
        got, err, calls = launch(run, main, cw + words(o))
        where = WHERE % "stateful_command"
        after = {q: run.freeze(v) for q, v in run.vfs.items()}
        rest = [show(q)[:80] for q in set(before) | set(after) if before.get(q) is not after.get(q) and (dirs[0] is None or not root_in(q, dirs[0]))]
        ck.ob(R1, inst + ", other files", not rest, "files outside of the checkpoint directory are changed: %s" % rest, where, ctx(run))
        if main == "smain_lazy":
            if bad:
                return judge(ck, run, inst, True, None, calls, got, err, behaviour, None, where)
            ck.ob(R1, inst, len(calls) == 1, "the program is run %d times" % len(calls), where, ctx(run))
            return outcome(ck, run, inst, behaviour, C(1), got, err, where)
        if want is not None and dirs[1] is not None:
            want = T(want.op, *(want.a[:-1] + (run.freeze(run.to_str(T("P", dirs[0]))),)))
        judge(ck, run, inst, bad or werr is not None, want, calls, got, err, behaviour, lambda: C(1), where)
        if want is not None and dirs[0] is not None and len(calls) == 1:
            names = [sorted(show(q)[len(show(c)):] for q in run.vfs if root_in(q, c)) for c in dirs]
            ck.ob(R1, inst + ", checkpoints", names[0] == names[1], "the program's checkpoints are %s, expected %s" % tuple(names), where, ctx(run))
    ck.explore(entry, opts(BEHAVIOUR=behaviour))


def root_in(q, c):
    return show(q).startswith(show(c) + "/")
