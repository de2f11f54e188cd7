"""Contexts of commits, scans, reads and writes carry exactly what was set on their builder.

Histories of setter calls (none, each alone, twice, every ordered pair, all of them, and continued after Finish) are followed
through each builder, and every getter of the finished context is compared with what the history set, or with the default."""
import itertools

from bytespec import World
from dom import NULL, c
from rules import AnalysisBroken, Path, show
from specs import cells_of, constref, strarg, value

PREFIXES = ["core/operation/commit_context", "core/operation/scan_context", "core/operation/read_context", "core/operation/write_context",
            "common/utils/path_util", "common/utils/string_utils"]
CLIENTS = ["c08"]
MIN_OBLIGATIONS = 2000
RULES = {
    "R1-carry": "a finished context returns the last value of every setting",
    "R2-default": "a setting that was not set has its documented default",
    "R3-options": "adding an option keeps the others; setting the options replaces them all",
    "R4-again": "after Finish the builder starts over with the defaults, for the same path and user",
    "R5-refuse": "an empty path and settings that cannot work are refused, and only those",
    "R6-path": "the path is the given one without repeated or trailing slashes",
}
K = "paimon::client08::"


def ptr(name, cls):
    return lambda w, st, i: ("addr", ("T", "%s%d" % (name, i), cls))


def text(name):
    return lambda w, st, i: ("s", "%s%d" % (name, i))


def flag(on):
    """the value that is not the default comes first"""
    return lambda w, st, i: c(int(on) if i == 1 else int(not on))


def number(first):
    return lambda w, st, i: c(first + i)


def made(fn, *args):
    return lambda w, st, i: w.make(st, fn, [a + str(i) for a in args])


POOL = ptr("pool", "paimon::MemoryPool")
EXEC = ptr("executor", "paimon::Executor")
PRED = ptr("predicate", "paimon::Predicate")
DEFPOOL, DEFEXEC = "default pool", "default executor"
MAP = made("Map", "k", "v", "l", "w")
NAMES = made("Names", "n", "m")
# builder -> (constructor arguments, [(setter, getter path, parameter kind, values, default)])
COMMON = [("WithMemoryPool", ["GetMemoryPool"], "val", POOL, DEFPOOL), ("WithExecutor", ["GetExecutor"], "val", EXEC, DEFEXEC),
          ("SetOptions", ["GetOptions"], "val", MAP, ())]
SPEC = {
    "Commit": (["GetRootPath", "GetCommitUser"], [
        ("IgnoreEmptyCommit", ["IgnoreEmptyCommit"], "val", flag(False), 1),
        ("UseRESTCatalogCommit", ["UseRESTCatalogCommit"], "val", flag(True), 0)] + COMMON),
    "Scan": (["GetPath"], [
        ("WithStreamingMode", ["IsStreamingMode"], "val", flag(True), 0), ("SetLimit", ["GetLimit"], "opt", number(10), None),
        ("SetBucketFilter", ["GetScanFilters", "GetBucketFilter"], "opt", number(20), None),
        ("SetPartitionFilter", ["GetScanFilters", "GetPartitionFilters"], "val", made("Partitions", "k", "v", "w"), ()),
        ("SetPredicate", ["GetScanFilters", "GetPredicate"], "val", PRED, "null"),
        ("SetVectorSearch", ["GetScanFilters", "GetVectorSearch"], "val", ptr("search", "paimon::VectorSearch"), "null"),
        ("SetGlobalIndexResult", ["GetGlobalIndexResult"], "val", ptr("result", "paimon::GlobalIndexResult"), "null")] + COMMON),
    "Read": (["GetPath"], [
        ("SetReadSchema", ["GetReadSchema"], "val", NAMES, ()), ("SetPredicate", ["GetPredicate"], "val", PRED, "null"),
        ("EnablePredicateFilter", ["EnablePredicateFilter"], "val", flag(True), 0), ("EnablePrefetch", ["EnablePrefetch"], "val", flag(True), 0),
        ("SetPrefetchBatchCount", ["GetPrefetchBatchCount"], "val", number(700), 600), ("SetPrefetchMaxParallelNum", ["GetPrefetchMaxParallelNum"], "val", number(4), 3),
        ("EnableMultiThreadRowToBatch", ["EnableMultiThreadRowToBatch"], "val", flag(True), 0), ("SetRowToBatchThreadNumber", ["GetRowToBatchThreadNumber"], "val", number(7), 1),
        ("SetTableSchema", ["GetSpecificTableSchema"], "opt", text("schema"), None), ("WithBranch", ["GetBranch"], "val", text("branch"), "main"),
        ("WithFileSystemSchemeToIdentifierMap", ["GetFileSystemSchemeToIdentifierMap"], "val", MAP, ())] + COMMON),
    "Write": (["GetRootPath", "GetCommitUser"], [
        ("WithStreamingMode", ["IsStreamingMode"], "val", flag(True), 0), ("WithIgnorePreviousFiles", ["IgnorePreviousFiles"], "val", flag(True), 0),
        ("WithWriteId", ["GetWriteId"], "opt", number(30), None), ("WithBranch", ["GetBranch"], "val", text("branch"), "main"),
        ("WithWriteSchema", ["GetWriteSchema"], "val", NAMES, ()),
        ("WithFileSystemSchemeToIdentifierMap", ["GetFileSystemSchemeToIdentifierMap"], "val", MAP, ())] + COMMON),
}


class W(World):
    def __init__(self, ck):
        h = {"paimon::CreateDefaultExecutor": self.executor}
        self.ck = ck
        self.eng = ck.engine(seq=True, max_depth=40, handlers=h, unroll=60)
        self.eng.exact_throw = True
        self.eng.handlers["paimon::GetDefaultPool"] = lambda eng, e, st, fr: [(st, ("addr", ("T", DEFPOOL, "paimon::MemoryPool")))]
        self.n = 0

    def executor(self, eng, e, st, fr):
        return [(s, ("addr", ("T", DEFEXEC, "paimon::Executor"))) for s, _ in eng.evs(e.get("a") or [], st, fr)]

    def make(self, st, fn, args):
        f = self.ck.fn(K + fn)
        ps = self.ck.run(f, self.eng, args=[strarg(self.eng, st, a, self.name("a")) for a in args], st=st)
        if len(ps) != 1:
            raise AnalysisBroken("%s has %d paths" % (fn, len(ps)))
        st.store = ps[0].st.store
        return ps[0].val

    def one(self, name, this, args, st, nparams=None):
        f = self.ck.fn(name, nparams=nparams)
        ps = self.ck.run(f, self.eng, this=this, args=args, st=st)
        if len(ps) != 1:
            raise AnalysisBroken("%s has %d paths" % (name, len(ps)))
        return f, ps[0]


def plain(p, v, depth=0):
    """a value as a Python object"""
    if v is None or depth > 6:
        raise AnalysisBroken("a setting is not understood")
    if v == NULL:
        return "null"
    if v[0] == "ref":
        cs = cells_of(p, v)
        return tuple(plain(p, x, depth + 1) for x in cs) if cs is not None else plain(p, p.eng.read(p.st, v[1], None), depth + 1)
    if v[0] in ("s", "c"):
        return v[1]
    if v[0] == "none":
        return None
    if v[0] == "some":
        return ("some", plain(p, v[1], depth + 1))
    if v[0] == "addr":
        return v[1][1]
    if v[0] == "op" and v[1] == "pair":
        return plain(p, v[2], depth + 1), plain(p, v[3], depth + 1)
    cs = cells_of(p, v)
    if cs is None:
        raise AnalysisBroken("the setting %s is not understood" % show(v)[:200])
    return tuple(plain(p, x, depth + 1) for x in cs)


def check(ck):
    w = W(ck)
    for kind, (ctor, settings) in SPEC.items():
        builder(ck, w, kind, ctor, settings)
    refuse(ck, w)
    paths(ck, w)


def make(ck, w, kind, path="/tmp/table"):
    b = "paimon::%sContextBuilder" % kind
    this = ("T", w.name("builder"), b)
    st = w.state()
    args = [path] + ["user"] * (len(SPEC[kind][0]) - 1)
    f, p = w.one(b + "::%sContextBuilder" % kind, this, [strarg(w.eng, st, a, w.name("a")) for a in args], st, nparams=len(args))
    return this, p.st


def put(ck, w, kind, this, st, setter, val):
    """one setter call; gives the state after it and the plain value"""
    x = Path(w.eng, "ret", st, None)
    pv = plain(x, val)
    arg = val
    if val[0] in ("s", "addr", "op"):
        arg = constref(w.eng, st, val, w.name("v"))
    f, p = w.one("paimon::%sContextBuilder::%s" % (kind, setter), this, [arg], st)
    r = p.val
    ck.require(r is not None and r[0] == "ref" and r[1] == this, "R1-carry", f, None, "%s|%s|chain" % (kind, setter), "%s does not return the builder" % setter, p)
    return p.st, pv


def finish(ck, w, kind, this, st):
    f = ck.fn("paimon::%sContextBuilder::Finish" % kind)
    ps = ck.run(f, w.eng, this=this, st=st)
    if len(ps) != 1:
        raise AnalysisBroken("%sContextBuilder::Finish has %d paths" % (kind, len(ps)))
    return f, ps[0]


def get(ck, w, kind, p, path):
    cls, v, st = "paimon::%sContext" % kind, p.okval(), p.st
    for g in path:
        q = Path(w.eng, "ret", st, v)
        v = value(q, v)
        if v[0] != "addr":
            raise AnalysisBroken("the %s context is not understood: %s" % (kind, show(v)))
        f, r = w.one("%s::%s" % (cls, g), v[1], [], st.copy())
        v, st, cls = r.val, r.st, "paimon::ScanFilter"
    return f, r, plain(r, v)


def compare(ck, w, kind, p, settings, ctor, want, key, path="/tmp/table"):
    f = ck.fn("paimon::%sContextBuilder::Finish" % kind)
    if not ck.require(p.ok, "R5-refuse", f, None, "%s|%s|ok" % (kind, key), "the %s context with %s is refused" % (kind.lower(), key), p):
        return
    for g, x in zip(ctor, (path, "user")):
        _, r, v = get(ck, w, kind, p, [g])
        ck.require(v == x, "R1-carry", f, None, "%s|%s|%s" % (kind, g, key), "%s of the %s context gives %s instead of %s" % (g, kind.lower(), v, x), p)
    for setter, gp, how, _, default in settings:
        _, r, v = get(ck, w, kind, p, gp)
        x = want.get(setter, default)
        if setter in want and how == "opt":
            x = ("some", x)
        rule = "R1-carry" if setter in want else "R4-again" if "Finish" in key else "R2-default"
        ck.require(v == x, rule, f, None, "%s|%s|%s" % (kind, gp[-1], key), "after %s, %s of the %s context gives %s instead of %s" % (key or "nothing", gp[-1], kind.lower(), v, x), p)


def builder(ck, w, kind, ctor, settings):
    names = [s[0] for s in settings]
    vals = {s[0]: s[3] for s in settings}
    hs = [[]] + [[(n, 1)] for n in names] + [[(n, 1), (n, 2)] for n in names] + [[(a, 1), (b, 1)] for a, b in itertools.permutations(names, 2)]
    hs += [[(n, 1) for n in names], [(n, 1) for n in reversed(names)]]
    hs += [[(n, 1) for n in names] + ["Finish"]] + [[(n, 1) for n in names] + ["Finish", (m, 2)] for m in names] + [[(n, 1), "Finish"] for n in names]
    for h in hs:
        this, st = make(ck, w, kind)
        want = {}
        for step in h:
            if step == "Finish":
                f, p = finish(ck, w, kind, this, st)
                if not ck.require(p.ok, "R5-refuse", f, None, "%s|first" % kind, "the first %s context is refused" % kind.lower(), p):
                    break
                st, want = p.st, {}
                continue
            st, want[step[0]] = put(ck, w, kind, this, st, step[0], vals[step[0]](w, st, step[1]))
        else:
            f, p = finish(ck, w, kind, this, st)
            compare(ck, w, kind, p, settings, ctor, want, "+".join(x if x == "Finish" else "%s%s" % (x[0], x[1] if x[1] > 1 else "") for x in h))
    # options one by one
    f = ck.fn("paimon::%sContextBuilder::AddOption" % kind)
    for h, want in (([("a", "1")], (("a", "1"),)), ([("a", "1"), ("a", "2")], (("a", "2"),)), ([("b", "1"), ("a", "2")], (("a", "2"), ("b", "1"))),
                    ([None, ("a", "3")], (("a", "3"), ("k1", "v1"), ("l1", "w1"))), ([None, ("k1", "3")], (("k1", "3"), ("l1", "w1"))),
                    ([("a", "3"), None], (("k1", "v1"), ("l1", "w1"))), ([("a", "1"), "Finish", ("b", "2")], (("b", "2"),))):
        this, st = make(ck, w, kind)
        for step in h:
            if step == "Finish":
                st = finish(ck, w, kind, this, st)[1].st
            elif step is None:
                st, _ = put(ck, w, kind, this, st, "SetOptions", MAP(w, st, 1))
            else:
                _, p = w.one("paimon::%sContextBuilder::AddOption" % kind, this, [strarg(w.eng, st, x, w.name("o")) for x in step], st)
                st = p.st
        f2, p = finish(ck, w, kind, this, st)
        if ck.require(p.ok, "R5-refuse", f2, None, "%s|options" % kind, "a %s context with options is refused" % kind.lower(), p):
            _, r, v = get(ck, w, kind, p, ["GetOptions"])
            ck.require(v == want, "R3-options", f, None, "%s|%s" % (kind, h), "after %s the options are %s" % (h, v), p)


def refuse(ck, w):
    for kind in SPEC:
        this, st = make(ck, w, kind, "")
        f, p = finish(ck, w, kind, this, st)
        ck.require(not p.ok, "R5-refuse", f, None, "%s|empty" % kind, "a %s context with an empty path is accepted" % kind.lower(), p)
    for on, batch, par, mt, n in itertools.product((0, 1), (None, 0, 1, 2, 3, 5), (None, 1, 2, 3, 4), (0, 1), (None, 0, 1, 2)):
        if (mt or n is not None) and (on or batch is not None or par is not None) and n != 0:
            continue
        this, st = make(ck, w, "Read")
        for s, x in (("EnablePrefetch", on or None), ("SetPrefetchBatchCount", batch), ("SetPrefetchMaxParallelNum", par), ("EnableMultiThreadRowToBatch", mt or None), ("SetRowToBatchThreadNumber", n)):
            if x is not None:
                st, _ = put(ck, w, "Read", this, st, s, c(x))
        b, m = 600 if batch is None else batch, 3 if par is None else par
        bad = on and (b == 0 or b < m) or mt and n == 0
        f, p = finish(ck, w, "Read", this, st)
        ck.require(p.ok == (not bad), "R5-refuse", f, None, "Read|%s" % ((on, batch, par, mt, n),),
                   "prefetch %s with %s batches and %s at once, threads %s with %s: %s" % (bool(on), b, m, bool(mt), n, "accepted" if p.ok else "refused"), p)
        if not bad:
            for g, x in (("EnablePrefetch", on), ("GetPrefetchBatchCount", b), ("GetPrefetchMaxParallelNum", m)):
                _, r, v = get(ck, w, "Read", p, [g])
                ck.require(v == x, "R1-carry", f, None, "Read|%s|values" % g, "%s gives %s instead of %s" % (g, v, x), p)


def paths(ck, w):
    for path, want in (("/a", "/a"), ("/a/", "/a"), ("/a//b", "/a/b"), ("//", "/"), ("/", "/"), ("a/b", "a/b"), ("/a///b//", "/a/b"), ("hdfs:///a//b/", "hdfs:/a/b"), ("oss://bucket/a//b/", "oss://bucket/a/b"),
                       ("file:/a/b", "file:/a/b")):
        for kind, (ctor, _) in SPEC.items():
            this, st = make(ck, w, kind, path)
            f, p = finish(ck, w, kind, this, st)
            if ck.require(p.ok, "R6-path", f, None, "%s|%s" % (kind, path), "the path %s is refused" % path, p):
                _, r, v = get(ck, w, kind, p, [ctor[0]])
                ck.require(v == want, "R6-path", f, None, "%s|%s" % (kind, path), "the path %s becomes %s instead of %s" % (path, v, want), p)
