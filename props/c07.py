"""Small values: timestamps, table names, counters, byte order, guards, plans and deletion files.

Clients (inst/c07.cpp) use each value through its public interface with unknown numbers; text of timestamps is followed for
dates around every boundary; stored deletion files are followed byte by byte, with every truncation."""
import itertools
import funcs
import mem as M
from bytespec import World, hexs
from dom import NULL, ONE, ZERO, add, c, ge, op, scale, sub, subterms
from rules import AnalysisBroken, show, teq
from specs import cells_of, constref, le, loc_of, strarg, value

PREFIXES = ["common/memory/", "common/data/timestamp", "common/io/", "core/catalog/identifier", "core/table/source/plan_impl"]
CLIENTS = ["c07"]
MIN_OBLIGATIONS = 300
RULES = {
    "R1-time": "a timestamp keeps its milliseconds and nanoseconds and converts to micro- and nanoseconds exactly",
    "R2-order": "timestamps, table names and deletion files are equal exactly if all parts are; timestamps are ordered by milliseconds, then nanoseconds",
    "R3-text": "the text of a timestamp is its UTC date and time with four-digit year and nine digits of fraction",
    "R4-count": "a counter is the sum of what was added and merged since the last reset; the merged one stays as it was",
    "R5-swap": "swapping reverses the bytes of a value",
    "R6-guard": "a guard runs its action once at its end, unless it was released",
    "R7-plan": "a plan holds the given snapshot and splits; the empty plan holds none",
    "R8-stored": "a list of deletion files is stored as the documented bytes",
    "R9-read": "reading returns what was stored, by version; cut or malformed bytes are errors",
    "R10-memory": "no byte outside a buffer is accessed",
}
K = "paimon::client07::"


class W(World):
    mem_rule = "R10-memory"

    def __init__(self, ck):
        h = {K + "Ran": self.ran, "gmtime_r": self.gmtime, "std::put_time": self.put_time, "std::chrono::duration::count": self.count,
             "ctor:std::chrono::duration": self.duration, "std::chrono::operator+": self.sum, "std::chrono::operator-": self.sum,
             "std::chrono::duration_cast": self.dcast}
        World.__init__(self, ck, K, handlers=h, split_wraps=True, unroll=200)
        self.eng.exact_throw = True
        funcs.enable(self.eng)

    # ---- durations are numbers of nanoseconds
    def factor(self, t):
        t = (t or "").replace(" ", "").replace("const", "")
        for k, f in (("ratio<1,1000000000>", 1), ("ratio<1,1000000>", 1000), ("ratio<1,1000>", 10 ** 6), ("ratio<1,1>", 10 ** 9), ("ratio<1>", 10 ** 9),
                     ("ratio<60", 60 * 10 ** 9), ("ratio<3600", 3600 * 10 ** 9), ("nanoseconds", 1), ("microseconds", 1000), ("milliseconds", 10 ** 6)):
            if k in t:
                return f
        if t.startswith("std::chrono::duration<"):
            return 10 ** 9
        raise AnalysisBroken("duration type %s is not known" % t)

    def duration(self, eng, e, st, fr):
        out = []
        for s, vs in eng.evs(e["a"], st, fr):
            v = eng.load(s, vs[0], e["a"][0].get("t")) if vs else ZERO
            if v[0] != "op" or v[1] != "dur":
                v = op("dur", scale(v, self.factor(e.get("t"))))
            out.append((s, v))
        return out

    def dcast(self, eng, e, st, fr):
        return [(s, eng.load(s, v, None) if v[0] == "ref" else v) for s, v in eng.ev(e["a"][0], st, fr)]

    def sum(self, eng, e, st, fr):
        out = []
        for s, vs in eng.evs(e["a"], st, fr):
            vs = [eng.load(s, v, a.get("t")) if v[0] == "ref" else v for v, a in zip(vs, e["a"])]
            if any(v[0] != "op" or v[1] != "dur" for v in vs):
                raise AnalysisBroken("durations %s" % [show(v) for v in vs])
            out.append((s, op("dur", (add if e["fn"].endswith("+") else sub)(vs[0][2], vs[1][2]))))
        return out

    def count(self, eng, e, st, fr):
        out = []
        for s, l in eng.lv(e["obj"], st, fr):
            v = eng.read(s, l, None)
            f = self.factor(e["obj"].get("t"))
            if v is None or v[0] != "op" or v[1] != "dur":
                raise AnalysisBroken("duration %s" % show(v))
            out.append((s, eng.arith(s, "/", v[2], c(f), "long")))
        return out

    # ---- calendar
    def gmtime(self, eng, e, st, fr):
        out = []
        for s, vs in eng.evs(e["a"], st, fr):
            t = eng.read(s, loc_of(eng, vs[0]), "long")
            if t[0] != "c":
                raise AnalysisBroken("the time %s is not known" % show(t))
            s.ghost["tm"] = t[1]
            out.append((s, vs[1]))
        return out

    def put_time(self, eng, e, st, fr):
        out = []
        for s, vs in eng.evs(e["a"], st, fr):
            f = eng.load(s, vs[1], e["a"][1].get("t"))
            if f[0] != "s" or "tm" not in s.ghost:
                raise AnalysisBroken("time format %s" % show(f))
            out.append((s, ("s", civil(s.ghost["tm"], f[1]))))
        return out

    def ran(self, eng, e, st, fr):
        st.ghost["ran"] = st.ghost.get("ran", 0) + 1
        return [(st, op("void"))]


def fields(t):
    """UTC calendar fields of a number of seconds; years outside 1..9999 as well"""
    days, r = divmod(t, 86400)
    z = days + 719468
    era, doe = divmod(z, 146097)
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    return yoe + era * 400 + (m <= 2), m, d, r // 3600, r // 60 % 60, r % 60


def civil(t, fmt):
    y, m, d, H, Mi, S = fields(t)
    out, i = "", 0
    while i < len(fmt):
        if fmt[i] == "%":
            k = fmt[i + 1]
            x = {"Y": "%d" % y, "m": "%02d" % m, "d": "%02d" % d, "H": "%02d" % H, "M": "%02d" % Mi, "S": "%02d" % S, "%": "%",
                 "F": "%d-%02d-%02d" % (y, m, d), "T": "%02d:%02d:%02d" % (H, Mi, S)}.get(k)
            if x is None:
                raise AnalysisBroken("time format %s" % fmt)
            out += x
            i += 2
        else:
            out += fmt[i]
            i += 1
    return out


def check(ck):
    w = W(ck)
    times(ck, w)
    names(ck, w)
    small(ck, w)
    stored(ck, w)
    reading(ck, w)


MS = 253402300799999


def divide(p, v):
    """what a quotient of a number that is not negative means"""
    for x in subterms(v):
        if x[0] == "op" and x[1] == "/" and x[3][0] == "c" and x[3][1] > 0 and p.st.facts.truth(ge(x[2], ZERO)) is True:
            r = sub(x[2], scale(x, x[3][1]))
            p.st.facts.assume(ge(r, ZERO), True)
            p.st.facts.assume(le(r, c(x[3][1] - 1)), True)


def ask(ck, w, name, args, facts=()):
    f = ck.fn(K + name)
    st = w.state()
    for x, b in facts:
        st.facts.assume(x, b)
    vs = [w.string(st, a) if isinstance(a, list) else strarg(w.eng, st, a, w.name("a")) if isinstance(a, str) else a for a in args]
    for p in w.run(name, vs, st):
        w.safe(f, p, name, "R10-memory")
        yield f, p


def times(ck, w):
    ms, ns, ms2, ns2 = w.var("ms", "long"), w.var("ns", "int"), w.var("ms2", "long"), w.var("ns2", "int")
    rng = [(ge(x, c(-62167219200000)), True) for x in (ms, ms2)] + [(le(x, c(MS)), True) for x in (ms, ms2)] + \
          [(ge(x, ZERO), True) for x in (ns, ns2)] + [(le(x, c(999999)), True) for x in (ns, ns2)]
    near = [(ge(ms, c(-9 * 10 ** 12)), True), (le(ms, c(9 * 10 ** 12)), True)]
    for name, args, want, fx in (("Millisecond", [ms, ns], ms, []), ("Nano", [ms, ns], ns, []), ("FromMillis", [ms], ms, []), ("FromMillisNano", [ms], ZERO, []),
                                 ("FromBoth", [ms, ns], ms, []), ("FromBothNano", [ms, ns], ns, []), ("Cut", [ms, ns], ms, []), ("CutNano", [ms, ns], ZERO, []),
                                 ("Nanos", [ms, ns], add(scale(ms, 10 ** 6), ns), near)):
        for f, p in ask(ck, w, name, args, rng + fx):
            ck.require(teq(p, value(p, p.val), want), "R1-time", f, None, name, "%s gives %s instead of %s" % (name, show(p.val), show(want)), p)
    for f, p in ask(ck, w, "Micros", [ms, ns], rng):
        # v*1000 <= ms*10^6 + ns < v*1000 + 1000
        v = value(p, p.val)
        divide(p, v)
        d = sub(add(scale(ms, 10 ** 6), ns), scale(v, 1000))
        ck.require(p.st.facts.truth(ge(d, ZERO)) is True and p.st.facts.truth(le(d, c(999))) is True, "R1-time", f, None, "Micros",
                   "ToMicrosecond gives %s" % show(v), p)
    for x, y in ((0, 0), (0, 999), (0, 1000), (5, 999999), (-1, 0), (-1, 999999), (-16225478, 123456), (1622547800000, 123456), (-1, 1), (MS, 999999)):
        for f, p in ask(ck, w, "Micros", [c(x), c(y)]):
            ck.require(value(p, p.val) == c(x * 1000 + y // 1000), "R1-time", f, None, "Micros|%d|%d" % (x, y), "ToMicrosecond of (%d, %d) gives %s" % (x, y, show(p.val)), p)
    for pr in range(0, 10):
        for f, p in ask(ck, w, "Compact", [c(pr)]):
            ck.require(value(p, p.val) == c(int(pr <= 3)), "R1-time", f, None, "Compact|%d" % pr, "precision %d counts as %scompact" % (pr, "" if pr > 3 else "not "), p)
    for name, o in (("SameTime", "=="), ("EarlierTime", "<")):
        for f, p in ask(ck, w, name, [ms, ns, ms2, ns2], rng):
            v = value(p, p.val)
            for s, b in w.eng.branch(p.st.copy(), v):
                F = lambda x, y, k: s.facts.truth(w.eng.compare(s, k, x, y))
                if o == "==":
                    ok = F(ms, ms2, "==") is True and F(ns, ns2, "==") is True if b else F(ms, ms2, "==") is False or F(ns, ns2, "==") is False
                elif b:
                    ok = F(ms, ms2, "<") is True or F(ms, ms2, "==") is True and F(ns, ns2, "<") is True
                else:
                    ok = F(ms2, ms, "<") is True or F(ms, ms2, "==") is True and F(ns, ns2, "<") is False
                ck.require(ok, "R2-order", f, None, name, "%s answers %s although the parts say otherwise" % (name, b), p)
    for f, p in ask(ck, w, "SelfTime", [ms, ns], rng):
        ck.require(p.st.facts.truth(value(p, p.val)) is True, "R2-order", f, None, "SelfTime", "a timestamp differs from itself", p)
    day = 86400000
    pts = [0, 1, 999, 1000, -1, -999, -1000, -1001, day - 1, day, -day, -day - 1, 951782400000, 951868800000, 1709164800000, 4107542399999, 253402300799999,
           -62135596800000, -62135596800001, -62167219200000, -62109569749000, -30610224000000, -30641760000001, -59011459200000, 1622547800000, -2208988800001, 68169600000]
    for x in pts:
        for y in (0, 1, 123456, 999999):
            yy, m, d, H, Mi, S = fields(x // 1000)
            want = "%04d-%02d-%02d %02d:%02d:%02d.%09d" % (yy, m, d, H, Mi, S, x % 1000 * 10 ** 6 + y)
            for f, p in ask(ck, w, "Text", [c(x), c(y)]):
                v = value(p, p.val)
                if v[0] != "s":
                    raise AnalysisBroken("the text %s is not known" % show(v))
                ck.require(v[1] == want, "R3-text", f, None, "Text|%d|%d" % (x, y), "the timestamp (%d, %d) reads %s, expected %s" % (x, y, v[1], want), p)


def names(ck, w):
    ts = ["", "a", "b", "ab", "db"]
    for d, t, d2, t2 in itertools.product(ts, repeat=4):
        for f, p in ask(ck, w, "SameName", [d, t, d2, t2]):
            v = value(p, p.val)
            if v[0] != "c":
                raise AnalysisBroken("names compare as %s" % show(v))
            ck.require(v[1] == int((d, t) == (d2, t2)), "R2-order", f, None, "SameName|%s.%s|%s.%s" % (d, t, d2, t2),
                       "%s.%s and %s.%s count as %s" % (d, t, d2, t2, "equal" if v[1] else "different"), p)
    for name, want in (("Database", "db"), ("Table", "tb")):
        for f, p in ask(ck, w, name, ["db", "tb"]):
            ck.require(value(p, p.val) == ("s", want), "R2-order", f, None, name, "%s of db.tb is %s" % (name, show(value(p, p.val))), p)
    # deletion files: each part alone differs
    some = lambda x: ("none",) if x is None else ("some", c(x))
    base = ("p", 1, 2, 3)
    for other in (base, ("q", 1, 2, 3), ("p", 7, 2, 3), ("p", 1, 7, 3), ("p", 1, 2, 7), ("p", 1, 2, None)):
        for a, b in ((base, other), (other, base), (("p", 1, 2, None), other)):
            for f, p in ask(ck, w, "SameFile", [a[0], c(a[1]), c(a[2]), some(a[3]), b[0], c(b[1]), c(b[2]), some(b[3])]):
                v = value(p, p.val)
                if v[0] != "c":
                    raise AnalysisBroken("deletion files compare as %s" % show(v))
                ck.require(v[1] == int(a == b), "R2-order", f, None, "SameFile|%s|%s" % (a, b), "%s and %s count as %s" % (a, b, "equal" if v[1] else "different"), p)


def small(ck, w):
    a, b, x = (w.var(n, "long") for n in ("ca", "cb", "cx"))
    rng = [(ge(v, c(-1 << 60)), True) for v in (a, b, x)] + [(le(v, c(1 << 60)), True) for v in (a, b, x)]
    for name, args, want in (("Count", [a, b, x], add(a, add(b, x))), ("CountOther", [a, b, x], add(b, x)), ("CountStart", [x], x), ("CountReset", [a, x], x)):
        for f, p in ask(ck, w, name, args, rng):
            ck.require(teq(p, value(p, p.val), want), "R4-count", f, None, name, "%s gives %s instead of %s" % (name, show(p.val), show(want)), p)
    for name, t in (("SwapChar", "char"), ("SwapShort", "short"), ("SwapInt", "int"), ("SwapLong", "long"), ("SwapUShort", "unsigned short"),
                    ("SwapUInt", "unsigned int"), ("SwapULong", "unsigned long")):
        v = w.var("v", t)
        for f, p in ask(ck, w, name, [v]):
            got, want = M.split(w.eng, p.st, p.val, t), M.split(w.eng, p.st, v, t)[::-1]
            w.sure(p, got)
            ck.require(w.same_all(p, got, want), "R5-swap", f, None, name, "%s gives [%s] instead of [%s]" % (name, hexs(got), hexs(want)), p)
    for name, want in (("Guard", 1), ("GuardReleased", 0), ("GuardEarly", 0)):
        for f, p in ask(ck, w, name, []):
            n = p.st.ghost.get("ran", 0)
            ck.require(n == want, "R6-guard", f, None, name, "%s: the action of the guard runs %d times instead of %d" % (name, n, want), p)
    sid = w.var("id", "long")
    for has in (True, False):
        for n in range(3):
            st = w.state()
            sp = [("addr", ("T", "split%d" % i, "paimon::Split")) for i in range(n)]
            vs = w.vec(st, sp, "std::shared_ptr<paimon::Split>")
            o = ("some", sid) if has else ("none",)
            f = ck.fn(K + "PlanSnapshot")
            for p in ck.run(f, w.eng, args=[o, vs], st=st.copy()):
                ck.require(value(p, p.val) == o, "R7-plan", f, None, "PlanSnapshot|%s" % has, "the snapshot of the plan is %s" % show(p.val), p)
            f = ck.fn(K + "PlanSplits")
            for p in ck.run(f, w.eng, args=[o, vs], st=st.copy()):
                cs = cells_of(p, p.val)
                if cs is None:
                    raise AnalysisBroken("splits %s are not known" % show(p.val))
                got = [w.eng.read(p.st, x[1], None) if x[0] == "ref" else x for x in cs]
                ck.require(got == sp, "R7-plan", f, None, "PlanSplits|%d" % n, "the plan has the splits %s" % [show(x) for x in got], p)
    for f, p in ask(ck, w, "PlanNothing", []):
        v = value(p, p.val)
        if v[0] != "c":
            raise AnalysisBroken("the empty plan is not known: %s" % show(v))
        ck.require(v == ONE, "R7-plan", f, None, "PlanNothing", "the empty plan has a snapshot or splits", p)


def num(w, st, v, t):
    return M.split(w.eng, st, v, t)[::-1]


def image(w, st, kind, path, o, l, n, version=4):
    if kind == 0:
        return [ZERO]
    return [ONE] + num(w, st, c(len(path)), "short") + path + num(w, st, o, "long") + num(w, st, l, "long") + \
        ([] if version < 4 else num(w, st, n if kind == 1 else c(-1), "long"))


def parts(w, tag, k):
    return w.bytes("p" + tag, k), w.var("o" + tag, "long"), w.var("l" + tag, "long"), w.var("n" + tag, "long")


def stored(ck, w):
    f = ck.fn("paimon::DeletionFile::SerializeList")
    for count in range(3):
        for k1, k2 in itertools.product(range(3), repeat=2):
            if count < 2 and k2 or count < 1 and k1:
                continue
            for plen in (0, 2, 60):
                st = w.state()
                a, b = parts(w, "1", plen), parts(w, "2", 1)
                for x in (a[3], b[3]):
                    st.facts.assume(ge(x, ZERO), True)
                want = [ZERO] if not count else [ONE] + num(w, st, c(count), "int") + image(w, st, k1, *a) + (image(w, st, k2, *b) if count > 1 else [])
                args = [c(count), c(k1), w.string(st, a[0])] + list(a[1:]) + [c(k2), w.string(st, b[0])] + list(b[1:]) + [w.pool(st)]
                for p in w.run("Store", args, st):
                    w.safe(f, p, "Store", "R10-memory")
                    got = w.out_bytes(p, p.val)
                    ck.require(w.same_all(p, got, want), "R8-stored", f, None, "Store|%d|%d|%d|%d" % (count, k1, k2, plen),
                               "%d deletion files (kinds %d, %d) are stored as [%s] instead of [%s]" % (count, k1, k2, hexs(got), hexs(want)), p)


def reading(ck, w):
    f = ck.fn("paimon::DeletionFile::DeserializeList")

    def read(name, data, version, extra=()):
        st = w.state()
        for p in w.run(name, [w.block(st, data), c(len(data)), c(version)] + list(extra) + [w.pool(st)], st):
            w.safe(f, p, name, "R10-memory")
            yield p
    st0 = w.state()
    for version in (1, 2, 3, 4, 5):
        for count in range(3):
            for k1, k2 in itertools.product(range(3), repeat=2):
                if count < 2 and k2 or count < 1 and k1 or version < 4 and 2 in (k1, k2):
                    continue
                a, b = parts(w, "1", 2)[:3] + (c(0 if k2 else 1 << 40),), parts(w, "2", 1)[:3] + (c(77),)
                fs = [(k1,) + a, (k2,) + b][:count]
                img = [ZERO] if not count else [ONE] + num(w, st0, c(count), "int") + [x for g in fs for x in image(w, st0, g[0], *g[1:], version=version)]
                key = "%d|%d|%d|%d" % (version, count, k1, k2)
                for p in read("Size", img + [c(1)], version):
                    ck.require(p.ok and value(p, p.okval()) == c(count), "R9-read", f, None, "Size|" + key, "%d stored deletion files: %s are read" % (count, show(p.okval()) if p.ok else "none"), p)
                for i, g in enumerate(fs):
                    for p in read("Has", img, version, [c(i)]):
                        ck.require(p.ok and value(p, p.okval()) == c(int(g[0] > 0)), "R9-read", f, None, "Has|" + key, "file %d of kind %d is read as %s" % (i, g[0], show(p.okval()) if p.ok else "error"), p)
                    if not g[0]:
                        continue
                    for p in read("Path", img, version, [c(i)]):
                        got = w.out_bytes(p, p.okval()) if p.ok else None
                        ck.require(p.ok and w.same_all(p, got, g[1]), "R9-read", f, None, "Path|" + key, "the path read is another one", p)
                    for nm, want in (("Offset", g[2]), ("Length", g[3])):
                        for p in read(nm, img, version, [c(i)]):
                            ck.require(p.ok and w.same_value(p, value(p, p.okval()), want, "long"), "R9-read", f, None, nm + "|" + key, "the %s read is another one" % nm.lower(), p)
                    has = version >= 4 and g[0] == 1
                    for p in read("HasCardinality", img, version, [c(i)]):
                        ck.require(p.ok and value(p, p.okval()) == c(int(has)), "R9-read", f, None, "HasCardinality|" + key,
                                   "version %d, kind %d: the number of deleted rows is %s" % (version, g[0], "missing" if has else "read"), p)
                    if has:
                        for p in read("Cardinality", img, version, [c(i)]):
                            ck.require(p.ok and w.same_value(p, value(p, p.okval()), g[4], "long"), "R9-read", f, None, "Cardinality|" + key, "the number of deleted rows read is another one", p)
                if version not in (3, 4) or count == 2 and (k1, k2) not in ((1, 0), (0, 1)):
                    continue
                for cut in range(len(img)):
                    for p in read("Size", img[:cut], version):
                        ck.require(not p.ok, "R9-read", f, None, "cut|%s|%d" % (key, cut), "a list of %d bytes cut to %d is accepted" % (len(img), cut), p)
    img = [ONE] + num(w, st0, ONE, "int") + [ZERO]
    for version in (0, -1, -5):
        for p in read("Size", img, version):
            ck.require(not p.ok, "R9-read", f, None, "version|%d" % version, "version %d is accepted" % version, p)
    for count in (-1, -2147483648):
        for p in read("Size", [ONE] + num(w, st0, c(count), "int") + [ZERO] * 4, 4):
            ck.require(not p.ok, "R9-read", f, None, "count|%d" % count, "a list of %d files is accepted" % count, p)
