"""Schema tools.

The command line of the tools (schema_evolution_cli, with abstract models of click and argparse) is run by interpretation for every command and option on files with arbitrary contents in a directory that also
holds an unrelated file: schemas of compatible, mitigable and incompatible older classes, unreadable schemas, configs of every version with and without their default fields and with scheduled values, and
broken configs at every position of the argument list.  After every path, whether it returns or fails, the abstract file system is compared with the one the property demands."""
from ..scen import *
from .. import tygen

R1, R2, R3 = "C16.only-named-files", "C16.unchanged-on-failure", "C16.written-content"
COMMON = tygen.HEAD + '''
from enum import Enum
from hyperstate.schema.rewrite_rule import RenameField, ChangeDefault, MapFieldValue, DeleteField, RewriteRule
from hyperstate.schema.schema_checker import schema_evolution_cli, SchemaChecker
from hyperstate.schema.types import load_schema, materialize_type
import hyperstate
import pyron
import sa_tools


class Boom(RewriteRule):
    def apply(self, state_dict):
        raise RuntimeError("a rule is applied")

    def apply_to_schema(self, schema):
        raise RuntimeError("a rule is applied")


class Kind(Enum):
    A = "a"
    B = "b"


@dataclass
class Net:
    width: int
    depth: int = 2
'''
BODY = '''
    bs: int
    lr: float = 0.5
    kind: Kind = Kind.A
    net: Net = field(default_factory=lambda: Net(8))
    note: Optional[str] = None
    flag: bool = False

    @classmethod
    def version(clz) -> int:
        return 3

    @classmethod
    def minimum_version(clz) -> int:
        return 0
'''
SRC = COMMON + '''
@dataclass
class Cfg(Versioned):
''' + BODY + '''
    @classmethod
    def upgrade_rules(clz):
        return {1: [RenameField(("batch_size",), ("bs",))], 2: [ChangeDefault(("net", "depth"), 7, 2), ChangeDefault(("flag",), True, False)]}


@dataclass
class Strict(Cfg):
    @classmethod
    def upgrade_rules(clz):
        return {i: [Boom()] for i in range(3)}


def tools():
    schema_evolution_cli(Cfg)


def content(c):
    return (c.bs, c.lr, c.kind.value, c.net.width, c.net.depth, c.note, c.flag)


def read(path):
    return content(hyperstate.load(Cfg, path))


def read_strict(path):
    return content(hyperstate.load(Strict, path))


def fields(path):
    return pyron.load(str(path))


def expected(path, elide):
    return pyron.loads(hyperstate.dumps(hyperstate.load(Cfg, path), elide_defaults=elide))


def differences(path):
    s = load_schema(path)
    return len(SchemaChecker(s, Cfg, perform_upgrade=False).changes)


def version_of(path):
    return load_schema(path).version
'''
# older classes: (name, fields, version, verdict)
OLD = {
    "same": (BODY, {}, "INFO"),
    "compatible": (BODY.replace("    flag: bool = False\n", "").replace("lr: float", "lr: int").replace("0.5", "1"), {}, "WARN"),
    "added": (BODY.replace("    flag: bool = False\n", ""), {}, "INFO"),
    "optional": (BODY.replace("note: Optional[str] = None", "note: str = 'x'"), {}, "WARN"),
    "upgraded": (BODY.replace("    bs: int", "    batch_size: int").replace("flag: bool = False", "flag: bool = True").replace("Net(8)", "Net(8, 2)").replace("return 3", "return 1"), {}, "RULES"),
    "removed": (BODY.replace("    flag: bool = False\n", "    flag: bool = False\n    more: int = 3\n"), {}, "WARN"),
    "type": (BODY.replace("bs: int", "bs: Dict[str, int]"), {}, "ERROR"),
    "enum": (BODY, {"B": "x"}, "WARN"),
    "variant": (BODY, {"C": "c"}, "ERROR"),
}
SRC_OLD = COMMON.replace('    B = "b"\n', "%s") + '''
@dataclass
class Cfg(Versioned):
%s
    @classmethod
    def upgrade_rules(clz):
        return {}


def write(path):
    sa_tools.argv("dump-schema", path)
    try:
        schema_evolution_cli(Cfg)
    except SystemExit as e:
        if e.code:
            raise RuntimeError("the tool fails")
    sa_tools.argv()
'''


def old_src(name):
    body, enum_, _ = OLD[name]
    vs = dict({"B": "b"}, **enum_)
    if name == "upgraded":
        src = SRC_OLD % ('    B = "b"\n', body)
        return src.replace("    depth: int = 2", "    depth: int = 7")
    return SRC_OLD % ("".join('    %s = "%s"\n' % v for v in vs.items()), body)


def run(ck):
    client_src(ck, "tools", SRC)
    for n in OLD:
        client_src(ck, "old_" + n, old_src(n))
    jobs = []
    for named in (True, False):
        for existing in (True, False):
            jobs.append(lambda ck, a=(named, existing): dump_schema(ck, *a))
        for n in OLD:
            for cmd in ("check-schema", "upgrade-schema"):
                jobs.append(lambda ck, a=(cmd, n, named): with_schema(ck, *a))
        for cmd in ("check-schema", "upgrade-schema"):
            for bad in BAD_SCHEMA:
                jobs.append(lambda ck, a=(cmd, bad, named): bad_schema(ck, *a))
    for flags in FLAGS:
        for v in (0, 1, 2, 3):
            for full in (True, False):
                jobs.append(lambda ck, a=(flags, v, full): upgrade(ck, flags, [(v, full)]))
        jobs.append(lambda ck, f=flags: upgrade(ck, f, []))
        jobs.append(lambda ck, f=flags: upgrade(ck, f, [(1, True), (3, True)]))
        jobs.append(lambda ck, f=flags: upgrade(ck, f, [(3, False), (2, False), (1, True)]))
        for bad in BAD_CONFIG:
            if bad == "unknown text":
                jobs.append(lambda ck, f=flags: upgrade(ck, f, ["unknown text"]))
                continue
            for k in range(3):
                jobs.append(lambda ck, a=(flags, bad, k): upgrade(ck, flags=a[0], files=[(1, True)] * a[2] + [a[1]] + [(2, False)] * (2 - a[2])))
        for k in range(3):
            jobs.append(lambda ck, a=(flags, k): upgrade(ck, flags=a[0], files=[(1, True)] * 2, sick=a[1]))
        jobs.append(lambda ck, f=flags: scheduled(ck, f))
    for words in ([], ["--help"], ["no-such-command"], ["upgrade-config", "--no-such-option"], ["dump-schema", "--help"], ["upgrade-schema", "a", "b"]):
        jobs.append(lambda ck, w=words: usage(ck, w))
    ck.map(jobs)
    ck.need(60, R1)
    ck.need(20, R2)
    ck.need(20, R3)


FLAGS = [[], ["--dry-run"], ["--include-defaults"], ["--include-defaults", "--dry-run"], ["--dry-run", "--include-defaults"]]
BAD_SCHEMA = ["unknown text", "no file", "not a schema"]
BAD_CONFIG = ["unknown field", "missing field", "wrong type", "no version", "no file", "unknown text"]


def diff(run, args, kw, node):
    """some diff (of text that is only printed)"""
    return Seq("list", [C(x) for x in ("--- ", "+++ ", "@@ 1 @@", " kept", "-old", "+new", "^")])


def opts(words):
    return Opts(faults=False, rec_default=30, max_paths=400, models={"difflib.unified_diff": diff, "difflib.ndiff": diff}, argv=[C(w) if isinstance(w, str) else w for w in words])


class Disk:
    """a directory with an unrelated file; the schema file is named on the command line or the default one"""
    def __init__(self, run):
        self.run = run
        self.d = directory(run, "dir")
        self.other = under(self.d, "other.ron")
        self.keep = run.sym("unrelated", {"str"})
        run.vfs[self.other] = self.keep

    def file(self, name):
        return under(self.d, name)

    def snapshot(self):
        run = self.run
        self.before = {p: run.freeze(v) for p, v in run.vfs.items()}
        self.dirs = set(run.vdirs)
        self.mark = len(run.events)

    def changed(self):
        run = self.run
        now = {p: run.freeze(v) for p, v in run.vfs.items()}
        out = [p for p in now if self.before.get(p) is not now[p]] + [p for p in self.before if p not in now] + [p for p in run.vdirs if p not in self.dirs]
        return out + [p for p in run.vgone if p not in self.before and p not in now]

    def only(self, ck, inst, allowed, what, exc):
        bad = [show(p)[:80] for p in self.changed() if p not in allowed]
        ck.ob(R2 if exc is not None and exc is not True else R1, inst, not bad, "%s changes %s" % (what, ", ".join(bad)), "hyperstate/schema/schema_checker.py (schema_evolution_cli)" if exc is None or exc is True else loc(exc.loc), ctx(self.run))


def tool(run, words):
    """run the tool with these operands; None if it exits normally, else the exception"""
    run.words = [C(w) if isinstance(w, str) else w for w in words]
    n = len(run.events)
    _, err = attempt(lambda: call(run, "tools.tools"))
    if err is not None and exit_code(run, err) == 0:
        err = None
    return err


def exit_code(run, err):
    e = run.deref(err.value)
    if isinstance(e, Exc) and e.cls == "builtins.SystemExit":
        a = e.args[0] if e.args else NONE
        return 0 if a is NONE else a.a[0] if is_c(a) else 1
    return None


def operand(run, p):
    """the command line word that names the path"""
    return p


def said(run, text):
    """is the constant text part of what was printed?"""
    return any(e.op == "print" and text in " ".join(show(a) for a in e.args) for e in run.events)


def schema_path(run, named):
    if named:
        disk = Disk(run)
        return disk, disk.file("s.ron"), True
    disk = Disk(run)
    return disk, C("config-schema.ron"), False


def dump_schema(ck, named, existing):
    inst = "dump-schema%s%s" % ("" if named else " (default file)", ", existing file" if existing else "")

    def entry(run):
        disk, p, _ = schema_path(run, named)
        if existing:
            run.vfs[p] = run.sym("old schema", {"str"})
        disk.snapshot()
        err = tool(run, ["dump-schema"] + ([p] if named else []))
        if err is not None:
            ck.ob(R3, inst, None if opaque_facts(run) else False, "dump-schema fails: %s" % exc_text(run, err), loc(err.loc), ctx(run))
            return
        disk.only(ck, inst, [p], "dump-schema", None)
        written(ck, run, inst, p)
    ck.explore(entry, opts([]))


def written(ck, run, inst, p):
    where = "hyperstate/schema/schema_checker.py (hyperstate.schema.schema_checker._dump_schema)"
    n, e = attempt(lambda: call(run, "tools.differences", p))
    v, e2 = attempt(lambda: call(run, "tools.version_of", p))
    ck.ob(R3, inst, e is None and e2 is None and n is C(0) and v is C(3), "the schema file written differs from the class: %s" % (e is not None and exc_text(run, e) or "%s differences, version %s" % (show(run.freeze(n)), show(run.freeze(v)) if v is not None else "?")), where, ctx(run))


def with_schema(ck, cmd, name, named):
    inst = "%s%s, old schema %s" % (cmd, "" if named else " (default file)", name)
    verdict = OLD[name][2]

    def entry(run):
        disk, p, _ = schema_path(run, named)
        call(run, "old_%s.write" % name, p)
        disk.snapshot()
        err = tool(run, [cmd] + ([p] if named else []))
        if err is not None:
            ck.ob(R1, inst, None if opaque_facts(run) else False, "%s fails: %s" % (cmd, exc_text(run, err)), loc(err.loc), ctx(run))
            return disk.only(ck, inst, [], cmd, err)
        if cmd == "check-schema":
            return disk.only(ck, inst, [], cmd, None)
        if verdict in ("INFO", "RULES"):
            disk.only(ck, inst, [p], cmd, None)
            written(ck, run, inst, p)
        else:
            disk.only(ck, inst, [], "upgrade-schema with an incompatible schema", None)
    ck.explore(entry, opts([]))


def bad_schema(ck, cmd, bad, named):
    inst = "%s%s, %s" % (cmd, "" if named else " (default file)", bad)

    def entry(run):
        disk, p, _ = schema_path(run, named)
        if bad == "unknown text":
            run.vfs[p] = run.sym("text", {"str"})
        elif bad == "not a schema":
            run.vfs[p] = document(run, mkdict([("some", C(1))]))
        disk.snapshot()
        err = tool(run, [cmd] + ([p] if named else []))
        if err is None:
            if bad == "unknown text":
                return
            return ck.ob(R2, inst, None if opaque_facts(run) else False, "%s succeeds with %s" % (cmd, bad), "hyperstate/schema/schema_checker.py", ctx(run))
        disk.only(ck, inst, [], cmd, err)
    ck.explore(entry, opts([]))


def config(run, i, v, full, free=True):
    """an arbitrary config of version v; not free: of which only some values are arbitrary"""
    g = tygen.Gen(run, "tools")
    if not free:
        ps = [("version", C(v)), ("batch_size" if v <= 1 else "bs", g.s("int"))]
        if full:
            ps += [("lr", C(0.25)), ("kind", C("b")), ("net", struct("Net", [("width", C(9 + i)), ("depth", C(2))])), ("note", g.s("str")), ("flag", C(False))]
        return ps
    ps = [("version", C(v)), ("batch_size" if v <= 1 else "bs", g.s("int"))]
    if full:
        ps += [("lr", g.s("float")), ("kind", C("b")), ("net", struct("Net", [("width", g.s("int")), ("depth", g.s("int"))])), ("note", g.s("str")), ("flag", g.s("bool"))]
    else:
        ps += [("net", struct("Net", [("width", g.s("int"))]))]
    return ps


def upgrade(ck, flags, files, sick=None):
    inst = "upgrade-config %s%s%s" % (" ".join(flags + [""]), ", ".join("%s" % f if isinstance(f, str) else "version %d%s" % (f[0], "" if f[1] else " without defaults") for f in files), "" if sick is None else ", the %s file cannot be dumped" % (sick + 1))
    dry, incl = "--dry-run" in flags, "--include-defaults" in flags
    failing = next((i for i, f in enumerate(files) if isinstance(f, str)), None)

    def entry(run):
        disk = Disk(run)
        ps = [disk.file("c%d.ron" % i) for i in range(len(files))]
        want = []
        for i, (p, f) in enumerate(zip(ps, files)):
            if isinstance(f, str):
                ok = config(run, i, 3, True, False)
                doc = {"unknown field": ok + [("what", C(1))], "missing field": [x for x in ok if x[0] != "bs"], "wrong type": [x for x in ok if x[0] != "bs"] + [("bs", Seq("list", []))],
                       "no version": ok[1:], "no file": None, "unknown text": 0}[f]
                if doc == 0:
                    run.vfs[p] = run.sym("text", {"str"})
                elif doc is not None:
                    run.vfs[p] = document(run, struct("Cfg", doc))
                want.append(None)
                continue
            run.vfs[p] = document(run, struct("Cfg", config(run, i, *f, free=len(files) == 1 and not dry and f[0] in (1, 3))))
            a, e = attempt(lambda: call(run, "tools.read", T("P", p)))
            b, e2 = attempt(lambda: call(run, "tools.expected", T("P", p), C(not incl)))
            if e is not None or e2 is not None:
                return ck.ob(R3, inst, None if opaque_facts(run) else False, "a config of version %s cannot be loaded and dumped: %s" % (f, exc_text(run, e or e2)), loc((e or e2).loc), ctx(run))
            want.append((a, b))
        disk.snapshot()
        if sick is not None:
            run.ser_armed = True
        err = tool(run, ["upgrade-config"] + flags + ps)
        run.ser_armed = False
        cmd = "upgrade-config"
        if sick is not None and err is not None:
            # whatever was already upgraded is complete, the rest is untouched
            bad = [p for p in disk.changed() if p not in ps]
            ck.ob(R2, inst, not bad, "upgrade-config changes other files: %s" % [show(p)[:60] for p in bad], loc(err.loc), ctx(run))
            for p, w in zip(ps, want):
                if p in disk.changed():
                    (upgraded if not dry else unexpected)(ck, run, inst, p, w)
            return
        if err is not None:
            if failing is None:
                return ck.ob(R3, inst, None if opaque_facts(run) else False, "upgrade-config fails: %s" % exc_text(run, err), loc(err.loc), ctx(run))
        elif failing is not None and files[failing] != "unknown text":
            ck.ob(R2, inst, None if opaque_facts(run) else False, "upgrade-config succeeds although the file has %s" % files[failing], "hyperstate/schema/schema_checker.py", ctx(run))
            return
        elif failing is not None:
            return
        if dry:
            return disk.only(ck, inst, [], "upgrade-config --dry-run", err)
        disk.only(ck, inst, ps if failing is None else [p for i, p in enumerate(ps) if i != failing], cmd, err)
        for i, (p, w) in enumerate(zip(ps, want)):
            if w is not None and (failing is None or p in disk.changed()):
                upgraded(ck, run, inst, p, w)
    ck.explore(entry, opts([]))


WHERE = "hyperstate/schema/schema_checker.py (hyperstate.schema.schema_checker._upgrade_config)"


def unexpected(ck, run, inst, p, w):
    ck.ob(R2, inst, False, "upgrade-config --dry-run changes %s" % show(p)[:60], WHERE, ctx(run))


def upgraded(ck, run, inst, p, w):
    a, e = attempt(lambda: call(run, "tools.read_strict", T("P", p)))
    if e is not None:
        return ck.ob(R3, inst, None if opaque_facts(run) else False, "the upgraded file cannot be loaded as the current version: %s" % exc_text(run, e), loc(e.loc), ctx(run))
    ck.ob(R3, inst, same(run, a, w[0]), "the upgraded file loads as %s, the old one as %s" % (show(run.freeze(a))[:200], show(run.freeze(w[0]))[:200]), WHERE, ctx(run))
    b, e = attempt(lambda: call(run, "tools.fields", T("P", p)))
    ck.ob(R3, inst + ", fields", e is None and same(run, b, w[1]), "the upgraded file has the fields %s, expected %s" % (b is not None and show(run.freeze(b))[:200], show(run.freeze(w[1]))[:200]), WHERE, ctx(run))


SCHEDULE = "step: 40@0 20@4"


def scheduled(ck, flags):
    inst = "upgrade-config %s, scheduled field" % " ".join(flags)
    dry = "--dry-run" in flags

    def entry(run):
        disk = Disk(run)
        p = disk.file("c.ron")
        ps = [x for x in config(run, 0, 2, True, False) if x[0] != "lr"]
        ps.insert(2, ("lr", C(SCHEDULE)))
        run.vfs[p] = document(run, struct("Cfg", ps))
        disk.snapshot()
        err = tool(run, ["upgrade-config"] + flags + [p])
        if err is not None:
            return ck.ob(R3, inst, None if opaque_facts(run) else False, "upgrade-config fails: %s" % exc_text(run, err), loc(err.loc), ctx(run))
        disk.only(ck, inst, [] if dry else [p], "upgrade-config", None)
        if not dry:
            b, e = attempt(lambda: call(run, "tools.fields", T("P", p)))
            v = None
            if e is None:
                b = run.deref(b)
                v = (b.d if isinstance(b, Nt) else b).entries.get(C("lr"))
            ck.ob(R3, inst, v is not None and run.bind_lit(run.deref(v[1])) is C(SCHEDULE), "the upgraded file does not contain the schedule of the old one: %s" % (b is not None and show(run.freeze(b))[:200]), WHERE, ctx(run))
    ck.explore(entry, opts([]))


def usage(ck, words):
    inst = "usage: " + " ".join(words)

    def entry(run):
        disk = Disk(run)
        disk.snapshot()
        err = tool(run, words)
        disk.only(ck, inst, [], "the tool", err)
    ck.explore(entry, opts([]))
