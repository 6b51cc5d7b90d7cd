"""Order and extent of upgrades.

Client classes with every current version up to N and every table assigning 0, 1 or 2 rules to each earlier version (keys in ascending and in descending order) use recording rules: rule k appends its number to a list in the data, either in place or by returning a new dict.
Documents of every version are loaded through every entry point; the list in the loaded object must be the numbers of the rules from the document's version on, in order.  The same tables are applied to schemas.  Nested versioned objects
record their own rules."""
import itertools
from ..scen import *
from .. import tygen

R1, R2, R3 = "C11.data", "C11.schema", "C11.nested"
HEAD = tygen.HEAD + '''
from hyperstate import StateManager
from hyperstate.schema.rewrite_rule import RewriteRule
from hyperstate.schema import types as t
from hyperstate.schema.schema_checker import SchemaChecker


class InPlace(RewriteRule):
    def __init__(self, k):
        self.k = k

    def apply(self, state_dict):
        state_dict["log"] = state_dict["log"] + [self.k]
        return state_dict

    def apply_to_schema(self, schema):
        TRACE.append(self.k)


class Fresh(RewriteRule):
    def __init__(self, k):
        self.k = k

    def apply(self, state_dict):
        return {**state_dict, "log": state_dict["log"] + [self.k]}

    def apply_to_schema(self, schema):
        TRACE.append(self.k)


TRACE: List[int] = []


@dataclass
class St:
    step: int


def init(config, ctx):
    return St(0)


def log(config):
    return config.log


def managed(cls, **kw):
    return StateManager(cls, St, init, **kw).config.log


def checker_trace(cls, version, upgrade):
    TRACE.clear()
    SchemaChecker(t.Struct("X", {}, version), cls, perform_upgrade=upgrade)
    return list(TRACE)


@dataclass
class Part(Versioned):
    log: List[int]

    @classmethod
    def version(clz) -> int:
        return 2

    @classmethod
    def upgrade_rules(clz):
        return {0: [InPlace(100)], 1: [Fresh(101), InPlace(102)]}


@dataclass
class Whole(Versioned):
    log: List[int]
    p: Part
    o: Optional[Part]
    l: List[Part]
    m: Dict[str, Part]
    tu: Tuple[Part, int]

    @classmethod
    def version(clz) -> int:
        return 3

    @classmethod
    def upgrade_rules(clz):
        return {2: [Fresh(3)], 0: [InPlace(1)], 1: [InPlace(2)]}


@dataclass
class Plain:
    p: Part
    l: List[Part]


@dataclass
class NoRules(Versioned):
    log: List[int]

    @classmethod
    def version(clz) -> int:
        return 4
'''
CLS = '''

@dataclass
class V%(i)d(Versioned):
    log: List[int]

    @classmethod
    def version(clz) -> int:
        return %(n)d

    @classmethod
    def upgrade_rules(clz):
        return {%(rules)s}
'''


def tables(nmax):
    out = []
    for n in range(nmax + 1):
        for counts in itertools.product((0, 1, 2), repeat=n):
            for rev in (False, True):
                if rev and sum(1 for c in counts if c) < 2:
                    continue
                out.append((n, counts, rev))
    return out


def number(v, j):
    return 10 * v + j


def rules_of(counts, v):
    return [number(v, j) for j in range(counts[v])]


def run(ck):
    ts = tables(4 if ck.thorough else 3)
    src = [HEAD]
    for i, (n, counts, rev) in enumerate(ts):
        ent = []
        for v in (reversed(range(n)) if rev else range(n)):
            if counts[v]:
                ent.append("%d: [%s]" % (v, ", ".join("%s(%d)" % ("Fresh" if (k + i) % 2 else "InPlace", k) for k in rules_of(counts, v))))
        src.append(CLS % dict(i=i, n=n, rules=", ".join(ent)))
    client_src(ck, "up", "".join(src))
    jobs = []
    for i, tb in enumerate(ts):
        jobs.append(lambda ck, a=(i, tb): data(ck, *a))
        jobs.append(lambda ck, a=(i, tb): schema(ck, *a))
    jobs += [lambda ck, a=(v, w): nested(ck, *a) for v in range(4) for w in range(3)] + [norules]
    ck.map(jobs)
    ck.need(30, R1)
    ck.need(10, R2)
    ck.need(3, R3)


def loads(run, cls, doc, via):
    """the list recorded in the loaded object"""
    if via in ("loads", "map"):
        return call(run, "up.log", call(run, "hyperstate.loads", cls, document(run, doc)))
    p = run.sym("docpath", {"str"})
    if via == "load":
        return call(run, "up.log", call(run, "hyperstate.load", cls, doc_file(run, doc, p)))
    if via == "init":
        return call(run, "up.managed", cls, init_path=doc_file(run, doc, p))
    c = directory(run, "dir")
    sub = c if via == "initdir" else under(c, "latest-step000000000007")
    if via != "initdir":
        run.vdirs[sub] = True
    run.vfs[under(sub, "config.ron")] = document(run, doc)
    run.vfs[under(sub, "state.ron")] = document(run, struct("St", [("step", C(7))]), "statedoc")
    return call(run, "up.managed", cls, **({"init_path": c} if via == "initdir" else {"checkpoint_dir": c}))


def numbers(run, v):
    v = run.deref(v)
    its = items(v)
    if its is None:
        return None
    out = [run.bind_lit(run.deref(x)) for x in its]
    return [x.a[0] for x in out] if all(is_c(x) for x in out) else None


def report(ck, run, rule, inst, got, err, want, what):
    if err is not None:
        return ck.ob(rule, inst, False, "%s fails: %s" % (what, exc_text(run, err)), loc(err.loc), ctx(run))
    ns = numbers(run, got)
    ck.ob(rule, inst, None if ns is None else ns == want, "%s applies the rules %s, expected %s" % (what, ns, want), "hyperstate/schema/versioned.py (Versioned)", ctx(run))


def data(ck, i, tb):
    n, counts, rev = tb
    for via in ("loads", "map", "load", "init", "initdir", "resume"):
        if via not in ("loads", "resume") and n < 2 and not ck.thorough:
            continue
        for v in range(n + 1):
            inst = "version %d of %d, rules %s%s, %s" % (v, n, counts, " reversed" if rev else "", via)

            def entry(run):
                pairs = [("version", C(v)), ("log", Seq("list", []))]
                if (i + v) % 2:
                    pairs.reverse()
                doc = mkdict(pairs) if via == "map" else struct("V%d" % i, pairs)
                got, err = attempt(lambda: loads(run, run.lookup("up.V%d" % i), doc, via))
                report(ck, run, R1, inst, got, err, [k for w in range(v, n) for k in rules_of(counts, w)], "loading version %d" % v)

            ck.explore(entry, Opts(faults=False, max_paths=100))


def schema(ck, i, tb):
    n, counts, rev = tb
    for v in range(n + 1):
        inst = "version %d of %d, rules %s%s" % (v, n, counts, " reversed" if rev else "")

        def entry(run):
            cls = run.lookup("up.V%d" % i)
            want = [k for w in range(v, n) for k in rules_of(counts, w)]
            got, err = attempt(lambda: call(run, "up.checker_trace", cls, C(v), C(True)))
            report(ck, run, R2, inst, got, err, want, "checking a schema")
            if v == 0:
                got, err = attempt(lambda: call(run, "up.checker_trace", cls, NONE, C(True)))
                report(ck, run, R2, inst + ", schema without a version", got, err, want, "checking a schema")
                got, err = attempt(lambda: call(run, "up.checker_trace", cls, C(v), C(False)))
                report(ck, run, R2, inst + ", checker without upgrade", got, err, [], "checking a schema without upgrade")

        ck.explore(entry, Opts(faults=False, max_paths=100))


PART = {0: [100, 101, 102], 1: [101, 102], 2: []}
WHOLE = {0: [1, 2, 3], 1: [2, 3], 2: [3], 3: []}


def nested(ck, v, w):
    for via in ("loads", "load", "resume"):
        inst = "outer %d, inner %d, %s" % (v, w, via)

        def entry(run):
            part = lambda: struct("Part", [("version", C(w)), ("log", Seq("list", []))])
            doc = struct("Whole", [("version", C(v)), ("log", Seq("list", [])), ("p", part()), ("o", part()), ("l", Seq("list", [part(), part()])), ("m", mkdict([("k", part())])), ("tu", Seq("tuple", [part(), C(1)]))])
            cls = run.lookup("up.Whole")
            p = run.sym("docpath", {"str"})
            if via == "loads":
                f = lambda: call(run, "hyperstate.loads", cls, document(run, doc))
            elif via == "load":
                f = lambda: call(run, "hyperstate.load", cls, doc_file(run, doc, p))
            else:
                f = lambda: call(run, "hyperstate.loads", run.lookup("up.Plain"), document(run, struct("Plain", [("p", part()), ("l", Seq("list", [part()]))])))
            got, err = attempt(f)
            if err is not None:
                return ck.ob(R3, inst, False, "loading fails: %s" % exc_text(run, err), loc(err.loc), ctx(run))
            get = lambda o, n: run.getattr_(o, n)
            parts = {"p": get(got, "p"), "l[0]": items(run.deref(get(got, "l")))[0]}
            if via != "resume":
                report(ck, run, R3, inst + ", itself", get(got, "log"), None, WHOLE[v], "loading")
                parts.update({"o": get(got, "o"), "l[1]": items(run.deref(get(got, "l")))[1], "m": run.getitem(get(got, "m"), C("k")), "tu": items(run.deref(get(got, "tu")))[0]})
            for k, x in parts.items():
                report(ck, run, R3, "%s, %s" % (inst, k), get(x, "log"), None, PART[w], "loading " + k)

        ck.explore(entry, Opts(faults=False, max_paths=100))


def norules(ck):
    for v in range(5):
        def entry(run):
            got, err = attempt(lambda: loads(run, run.lookup("up.NoRules"), struct("NoRules", [("version", C(v)), ("log", Seq("list", [C(7)]))]), "loads"))
            report(ck, run, R1, "no rules, version %d" % v, got, err, [7], "loading without rules")
        ck.explore(entry, Opts(faults=False, max_paths=100))
