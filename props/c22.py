"""Column statistics bound every collected value and count every null.

Clients (inst/c22.cpp, public interface only) create statistics of every type with or without initial bounds and null count,
collect up to three values or nulls, and read the bounds.  Numbers and times are unknown; texts, floating point numbers and
decimals run through every order of representative values."""
import itertools

from absint import _obj_locs
from dom import ONE, ZERO, add, c, ge, op
from flt import val as fval
from rules import AnalysisBroken, show, teq
from specs import constref, le, loc_of, lt, strarg, valid, OR, AND

PREFIXES = ["common/format/column_stats", "common/data/timestamp", "common/data/decimal"]
CLIENTS = ["c22"]
MIN_OBLIGATIONS = 1500
RULES = {
    "R1-bounds": "minimum and maximum are the least and greatest of the initial bounds and all collected values; none before the first value",
    "R2-nulls": "the null count grows by one for every null and is known after the first value or null",
    "R3-type": "statistics report the type, precision and scale they were created for",
}
K = "paimon::client22::"
INTS = {"TinyInt": ("signed char", 7), "SmallInt": ("short", 15), "Int": ("int", 31), "BigInt": ("long", 63), "Date": ("int", 31)}
TYPES = {"Boolean": "BOOLEAN", "TinyInt": "TINYINT", "SmallInt": "SMALLINT", "Int": "INT", "BigInt": "BIGINT", "Float": "FLOAT", "Double": "DOUBLE", "String": "STRING",
         "Date": "DATE", "Timestamp": "TIMESTAMP", "Decimal": "DECIMAL"}
KINDS = [k for k in itertools.product((0, 1, 2), repeat=3) if not (k[0] == 0 and any(k[1:])) and not (k[1] == 0 and k[2])]


class W:
    def __init__(self, ck):
        self.ck = ck
        self.eng = ck.engine(seq=True, max_depth=40)
        self.eng.join = False
        self.eng.handlers["paimon::Decimal::CompareTo"] = self.decimal

    def decimal(self, eng, e, st, fr):
        """order of decimals of one precision and scale"""
        out = []
        fs = fields_of(self.ck, "paimon::Decimal")
        for s, l in _obj_locs(eng, e, st, fr):
            for s2, (o,) in eng.evs(e["a"], s, fr):
                a, b = ([eng.read(s2, ("F", x, n), None) for n in fs] for x in (l, loc_of(eng, o)))
                if any(x[0] != "c" for x in a + b):
                    raise AnalysisBroken("decimals %s and %s" % ([show(x) for x in a], [show(x) for x in b]))
                d = next((x[1] - y[1] for x, y in zip(a, b) if x != y), 0)
                out.append((s2, c((d > 0) - (d < 0))))
        return out

    def run(self, name, args, st):
        f = self.ck.fn(K + name)
        self.eng.steps = 0
        return f, self.ck.run(f, self.eng, args=args, st=st)

    def opt(self, p, v, what):
        """None or the content"""
        if v is not None and v[0] == "ref":
            v = self.eng.read(p.st, v[1], None)
        if v == ("none",):
            return None
        if v is None or v[0] != "some":
            raise AnalysisBroken("%s is %s" % (what, show(v)))
        return v[1]


def check(ck):
    w = W(ck)
    numbers(ck, w)
    constants(ck, w)
    times(ck, w)
    decimals(ck, w)
    types(ck, w)


def desc(n, h0, hn, ks):
    return "%s statistics %s, %s, after %s" % (n, "with bounds" if h0 else "without bounds", "with a null count" if hn else "without null count", ", ".join(("", "a value", "a null")[k] for k in ks if k) or "nothing")


def nulls(ck, w, n, h0, hn, ks, args, st):
    f, ps = w.run(n + "Nulls", args, st)
    some = hn or any(ks)
    count = sum(k == 2 for k in ks)
    for p in ps:
        g = w.opt(p, p.val, "the null count")
        want = add(("v", "nulls"), c(count)) if hn else c(count)
        good = (g is None) == (not some) and (g is None or teq(p, g, want))
        ck.require(good, "R2-nulls", f_of(ck, n), None, "%s|%d|%d|%s" % (n, h0, hn, ks), "%s: the null count is %s" % (desc(n, h0, hn, ks), show(g)), p)


def f_of(ck, n):
    return ck.fn("paimon::ColumnStats::Create%sColumnStats" % n)


def numbers(ck, w):
    for n, (t, bits) in sorted(INTS.items()):
        V = [w.eng.typed(("v", "%s_%s" % (x, t.replace(" ", ""))), t) for x in ("lo", "hi", "v1", "v2", "v3")]
        for h0, hn, ks in itertools.product((0, 1), (0, 1), KINDS):
            def state():
                st = w.eng.new_state()
                st.facts.assume(le(V[0], V[1]), True)
                st.facts.assume(ge(w.eng.typed(("v", "nulls"), "long"), ZERO), True)
                st.facts.assume(le(("v", "nulls"), c(1 << 40)), True)
                return st
            args = [c(h0), V[0], V[1], c(hn), ("v", "nulls")] + [x for k, v in zip(ks, V[2:]) for x in (c(k), v)]
            have = (V[:2] if h0 else []) + [v for k, v in zip(ks, V[2:]) if k == 1]
            for what in ("Min", "Max") if not hn else ():
                f, ps = w.run(n + what, args, state())
                for p in ps:
                    g = w.opt(p, p.val, what)
                    key = "%s|%s|%d|%d|%s" % (n, what, h0, hn, ks)
                    if g is None or not have:
                        ck.require(g is None and not have, "R1-bounds", f_of(ck, n), None, key, "%s: %s is %s" % (desc(n, h0, hn, ks), what, show(g)), p)
                        continue
                    good = any(teq(p, g, x) for x in have) and all(p.st.facts.truth(le(g, x) if what == "Min" else ge(g, x)) is True for x in have)
                    ck.require(good, "R1-bounds", f_of(ck, n), None, key, "%s: %s is %s, not the %s of %s" %
                               (desc(n, h0, hn, ks), what, show(g), "least" if what == "Min" else "greatest", [show(x) for x in have]), p)
            nulls(ck, w, n, h0, hn, ks, args, state())


def constants(ck, w):
    fl = lambda t: [fval(x, t) for x in (-1.5, 0.0, 2.25)]
    sets = {"Boolean": [ZERO, ONE], "Float": fl("float"), "Double": fl("double"), "String": [("s", x) for x in ("", "a", "ab", "b")]}
    for n, vals in sorted(sets.items()):
        rank = {v: i for i, v in enumerate(vals)}
        for h0, ks in itertools.product((0, 1), KINDS):
            used = [k == 1 for k in ks]
            for pick in itertools.product(vals, repeat=sum(used)):
                it = iter(pick)
                vs = [next(it) if u else vals[0] for u in used]
                for lo, hi in ([(a, b) for a in vals for b in vals if rank[a] <= rank[b]] if h0 else [(vals[0], vals[0])]):
                    if len(vals) > 2 and h0 and sum(used) > 2 and lo != vals[1]:
                        continue
                    have = ([lo, hi] if h0 else []) + list(pick)
                    for what in ("Min", "Max"):
                        st = w.eng.new_state()
                        conv = (lambda v, i: strarg(w.eng, st, v[1], "s%d" % i)) if n == "String" else lambda v, i: v
                        args = [c(h0), conv(lo, 8), conv(hi, 9), c(1), ("v", "nulls")] + [x for i, (k, v) in enumerate(zip(ks, vs)) for x in (c(k), conv(v, i))]
                        want = (min if what == "Min" else max)((rank[x] for x in have), default=None)
                        f, ps = w.run(n + what, args, st)
                        for p in ps:
                            g = w.opt(p, p.val, what)
                            if g is not None and g[0] == "ref":
                                g = w.eng.read(p.st, g[1], None)
                            if g is not None and g not in rank:
                                raise AnalysisBroken("%s of %s is %s" % (what, n, show(g)))
                            ck.require(None if g is None and want is not None else (None if g is None else rank[g]) == want, "R1-bounds", f_of(ck, n), None,
                                       "%s|%s|%d|%s|%s" % (n, what, h0, ks, [show(x) for x in have]), "%s of %s values %s is %s" % (what, n, [show(x) for x in have], show(g)), p)
            for hn in (0, 1):
                st = w.eng.new_state()
                st.facts.assume(ge(("v", "nulls"), ZERO), True)
                st.facts.assume(le(("v", "nulls"), c(1 << 40)), True)
                conv = (lambda v, i: strarg(w.eng, st, v[1], "s%d" % i)) if n == "String" else lambda v, i: v
                args = [c(h0), conv(vals[0], 8), conv(vals[1], 9), c(hn), ("v", "nulls")] + [x for i, k in enumerate(ks) for x in (c(k), conv(vals[1], i))]
                nulls(ck, w, n, h0, hn, ks, args, st)


def made(ck, w, fn, argl, st):
    """objects made by the client; the state that holds them"""
    locs = []
    for a in argl:
        f = ck.fn(K + fn)
        ps = ck.run(f, w.eng, args=a, st=st)
        if len(ps) != 1:
            raise AnalysisBroken("%s has %d paths" % (fn, len(ps)))
        st = ps[0].st
        locs.append(loc_of(w.eng, ps[0].val))
    return st, locs


def parts(w, p, l, names):
    return tuple(w.eng.read(p.st, ("F", l, n), None) for n in names)


def fields_of(ck, cls):
    return [f["n"] for f in ck.record(cls)["fields"]]


def times(ck, w):
    names = ("lo", "hi", "v1", "v2", "v3")
    pairs = {x: (w.eng.typed(("v", x + "_ms"), "long"), w.eng.typed(("v", x + "_ns"), "int")) for x in names}
    fs = fields_of(ck, "paimon::Timestamp")

    def less(a, b):
        return OR(lt(a[0], b[0]), AND(le(a[0], b[0]), le(b[0], a[0]), lt(a[1], b[1])))

    def leq(a, b):
        return OR(lt(a[0], b[0]), AND(le(a[0], b[0]), le(b[0], a[0]), le(a[1], b[1])))
    for h0, hn, ks in itertools.product((0, 1), (0, 1), KINDS):
        if hn and sum(k == 1 for k in ks) + 2 * h0 > 3 and ck.tier != "thorough":
            continue
        used = (["lo", "hi"] if h0 else []) + [x for x, k in zip(names[2:], ks) if k == 1]

        def state():
            st = w.eng.new_state()
            for a, b in pairs.values():
                st.facts.assume(ge(b, ZERO), True)
                st.facts.assume(le(b, c(999999)), True)
            # initial bounds in order
            st.facts.assume(lt(pairs["lo"][0], pairs["hi"][0]), True)
            st.facts.assume(ge(("v", "nulls"), ZERO), True)
            st.facts.assume(le(("v", "nulls"), c(1 << 40)), True)
            return made(ck, w, "Time", [list(pairs[x]) for x in names], st)
        for what in ("Min", "Max", "Nulls"):
            if hn and what != "Nulls" or not hn and what == "Nulls" and sum(k == 1 for k in ks) > 2:
                continue
            st, locs = state()
            L = dict(zip(names, locs))
            args = [c(h0), ("ref", L["lo"]), ("ref", L["hi"]), c(hn), ("v", "nulls"), c(6)] + [x for k, v in zip(ks, names[2:]) for x in (c(k), ("ref", L[v]))]
            if what == "Nulls":
                nulls(ck, w, "Timestamp", h0, hn, ks, args, st)
                continue
            f, ps = w.run("Timestamp" + what, args, st)
            for p in ps:
                g = w.opt(p, p.val, what)
                key = "Timestamp|%s|%d|%d|%s" % (what, h0, hn, ks)
                if g is None or not used:
                    ck.require(g is None and not used, "R1-bounds", f_of(ck, "Timestamp"), None, key, "%s: %s is %s" % (desc("Timestamp", h0, hn, ks), what, show(g)), p)
                    continue
                g = parts(w, p, loc_of(w.eng, g), fs)
                ok = any(teq(p, g[0], pairs[x][0]) and teq(p, g[1], pairs[x][1]) for x in used)
                ok = ok and all(valid(p.st.facts, leq(g, pairs[x]) if what == "Min" else leq(pairs[x], g)) for x in used)
                ck.require(ok, "R1-bounds", f_of(ck, "Timestamp"), None, key, "%s: %s is (%s), not the %s" % (desc("Timestamp", h0, hn, ks), what, ", ".join(map(show, g)), "least" if what == "Min" else "greatest"), p)


def decimals(ck, w):
    fs = fields_of(ck, "paimon::Decimal")
    vals = [-250, 0, 37, 10 ** 17]
    for h0, ks in itertools.product((0, 1), KINDS):
        used = [k == 1 for k in ks]
        for pick in itertools.product(vals[:3] if sum(used) > 2 else vals, repeat=sum(used)):
            it = iter(pick)
            vs = [next(it) if u else 0 for u in used]
            for lo, hi in ([(-250, 37), (0, 0), (37, 10 ** 17)] if h0 else [(0, 0)]):
                have = ([lo, hi] if h0 else []) + list(pick)
                for what in ("Min", "Max"):
                    st, locs = made(ck, w, "Dec", [[c(20), c(2), c(x)] for x in [lo, hi] + vs], w.eng.new_state())
                    args = [c(h0), ("ref", locs[0]), ("ref", locs[1]), ONE, ("v", "nulls"), c(20), c(2)] + [x for k, l in zip(ks, locs[2:]) for x in (c(k), ("ref", l))]
                    want = (min if what == "Min" else max)(have, default=None)
                    f, ps = w.run("Decimal" + what, args, st)
                    for p in ps:
                        g = w.opt(p, p.val, what)
                        if g is not None:
                            g = parts(w, p, loc_of(w.eng, g), fs)
                            if any(x[0] != "c" for x in g):
                                raise AnalysisBroken("decimal %s" % [show(x) for x in g])
                            g = tuple(x[1] for x in g)
                        ck.require((g is None) == (want is None) and (g is None or sorted(g) == sorted((20, 2, want))), "R1-bounds", f_of(ck, "Decimal"), None,
                                   "Decimal|%s|%d|%s|%s" % (what, h0, ks, have), "%s of decimals %s is %s" % (what, have, g), p)
        for hn in (0, 1):
            st, locs = made(ck, w, "Dec", [[c(20), c(2), c(x)] for x in (1, 2, 3, 4, 5)], w.eng.new_state())
            st.facts.assume(ge(("v", "nulls"), ZERO), True)
            st.facts.assume(le(("v", "nulls"), c(1 << 40)), True)
            args = [c(h0), ("ref", locs[0]), ("ref", locs[1]), c(hn), ("v", "nulls"), c(20), c(2)] + [x for k, l in zip(ks, locs[2:]) for x in (c(k), ("ref", l))]
            nulls(ck, w, "Decimal", h0, hn, ks, args, st)


def types(ck, w):
    en = {x["n"]: x["v"] for x in ck.prog.enums["paimon::FieldType"]["e"]} if isinstance(ck.prog.enums["paimon::FieldType"]["e"][0], dict) else dict(ck.prog.enums["paimon::FieldType"]["e"])
    for n, t in sorted(TYPES.items()):
        st = w.eng.new_state()
        a = strarg(w.eng, st, "a", "t") if n == "String" else fval(1.0) if n in ("Float", "Double") else ONE
        if n in ("Timestamp", "Decimal"):
            st, (l,) = made(ck, w, "Time" if n == "Timestamp" else "Dec", [[c(1), c(2)] if n == "Timestamp" else [c(20), c(2), c(1)]], st)
            a = ("ref", l)
        args = [ONE, a, a, ONE, ONE] + ([c(3)] if n == "Timestamp" else [c(20), c(2)] if n == "Decimal" else [])
        f, ps = w.run(n + "Type", args, st)
        for p in ps:
            ck.require(p.val == c(en[t]), "R3-type", f_of(ck, n), None, n, "%s statistics report type %s" % (n, show(p.val)), p)
    for i, t in enumerate(("ARRAY", "MAP", "STRUCT")):
        for hn in (0, 1):
            f, ps = w.run("NestedType", [c(i), c(hn), ("v", "nulls")], w.eng.new_state())
            for p in ps:
                ck.require(p.val == c(en[t]), "R3-type", f_of(ck, "Nested"), None, t, "nested statistics of %s report type %s" % (t, show(p.val)), p)
            f, ps = w.run("NestedNulls", [c(i), c(hn), ("v", "nulls")], w.eng.new_state())
            for p in ps:
                g = w.opt(p, p.val, "the null count")
                ck.require(g == (("v", "nulls") if hn else None), "R2-nulls", f_of(ck, "Nested"), None, t, "nested statistics have the null count %s" % show(g), p)
    for name, n, args in (("TimestampPrecision", 0, [("v", "p")]), ("DecimalPrecision", 0, [("v", "p"), ("v", "q")]), ("DecimalScale", 1, [("v", "p"), ("v", "q")])):
        f, ps = w.run(name, args, w.eng.new_state())
        for p in ps:
            ck.require(p.val == args[n], "R3-type", f_of(ck, "Timestamp" if n == 0 and len(args) == 1 else "Decimal"), None, name, "%s is %s" % (name, show(p.val)), p)
