"""Counters are kept, merged and replaced exactly, also while another thread changes them.

Clients (inst/c25.cpp, public interface only) set up to three counters with unknown values on a metrics object and on a
second one, in every combination of present names, and merge, replace and read them.  Every run is repeated with the
whole operation of another thread taking effect at each lock acquisition of the operation."""
import conc
import seq
from dom import ONE, ZERO, add, c, ge, op
from rules import AnalysisBroken, Path, show, teq
from specs import cells_of, constref, le, strarg, value

PREFIXES = ["common/metrics/"]
CLIENTS = ["c25"]
MIN_OBLIGATIONS = 300
RULES = {
    "R1-counters": "a counter holds the last value set; an unknown name is an error; all counters are listed once, by name",
    "R2-merge": "merging adds the values of equal names, adopts the others and leaves the source as it was",
    "R3-replace": "replacing makes the counters equal to the source's and leaves the source as it was",
    "R4-nothing": "merging or replacing with nothing or with itself changes nothing",
    "R5-atomic": "with another thread's change at any lock acquisition the counters are those of one of the two orders",
    "R6-locks": "every access to the counters holds their lock; no lock is taken twice or in both orders",
}
K = "paimon::client25::"
NAMES = ("a", "b", "c")
U64 = "unsigned long"


class W:
    def __init__(self, ck):
        self.ck = ck
        self.eng = ck.engine(seq=True, max_depth=40)
        self.eng.join = False
        self.vals = [val(t + n) for t in "vxo" for n in NAMES] + [val(n) for n in ("x", "y", "z", "new")]
        self.th = conc.Threads(ck, self.eng, K)

    def run(self, name, args):
        f = self.ck.fn(K + name)
        st = self.eng.new_state()
        vs = []
        for n in self.vals:     # totals stay within 64 bits
            st.facts.assume(ge(n, ZERO), True)
            st.facts.assume(le(n, c(1 << 60)), True)
        for i, a in enumerate(args):
            vs.append(strarg(self.eng, st, a, "n%d" % i) if isinstance(a, str) else a)
        return f, self.ck.run(f, self.eng, args=vs, st=st)

    def table(self, p, v):
        """name -> value of a returned map"""
        out = []
        cs = cells_of(p, v)
        if cs is None:
            raise AnalysisBroken("the counters %s are not known (%s at %s)" % (show(v), self.th.other and self.th.other["fn"], self.th.at))
        for cell in cs:
            x = seq.load(p.eng, p.st, cell)
            if not (x[0] == "op" and x[1] == "pair"):
                raise AnalysisBroken("map cell %s" % show(x))
            k, x = x[2], x[3]
            if k[0] != "s":
                raise AnalysisBroken("name %s of a counter is not known" % show(k))
            out.append((k[1], x))
        return out


def val(n):
    return ("v", n)


def args_of(mask, tag):
    out = []
    for i, n in enumerate(NAMES):
        out += [c(mask >> i & 1), val(tag + n)]
    return out


def table_of(mask, tag):
    return {n: val(tag + n) for i, n in enumerate(NAMES) if mask >> i & 1}


def merged(x, y):
    out = dict(x)
    for k, v in y.items():
        out[k] = add(out[k], v) if k in out else v
    return out


def txt(t):
    return "{%s}" % ", ".join("%s: %s" % (k, show(t[k])) for k in sorted(t))


def same(w, p, got, want):
    """got: [(name, value)] in iteration order"""
    if [k for k, _ in got] != sorted(want):
        return False
    for k, x in got:
        if x == want[k]:
            continue
        if not teq(p, x, want[k]):
            return False
    return True


def check(ck):
    w = W(ck)
    th = w.th

    def expect(rule, name, args, wants, text):
        """wants: list of admissible tuples of tables"""
        f, ps = w.run(name, args)
        if th.at and not th.fired:
            return
        for p in ps:
            v = p.val
            key = "%s|%s" % (name, text)
            null = p.st.ghost.get("null")
            if not ck.require(null is None, rule, f if null is None else null[0], null and null[1], key + "|null", "%s: a null pointer is followed" % text, p):
                continue
            tabs = []
            if len(wants[0]) == 1:
                tabs = [w.table(p, v)]
            else:
                if not (v[0] == "op" and v[1] == "pair"):
                    raise AnalysisBroken("%s returns %s" % (name, show(v)))
                tabs = [w.table(p, v[2]), w.table(p, v[3])]
            good = any(all(same(w, p, g, x) for g, x in zip(tabs, want)) for want in wants)
            ck.require(good, rule, f, None, key, "%s: the counters are %s, not %s" %
                       (text, " and ".join(txt(dict(t)) for t in tabs), " or ".join(" and ".join(txt(t) for t in x) for x in wants)), p)

    def concurrent(rule, name, args, orders, other, oargs, text):
        """orders: [admissible outcomes]; run with the other thread at each lock acquisition"""
        k = 1
        while True:
            th.at, th.other, th.args, th.fired = k, ck.fn(K + other), oargs(w), 0
            try:
                expect(rule, name, args, orders, "%s while another thread is in %s at lock %d" % (text, other, k))
            finally:
                th.at = None
            if not th.fired:
                break
            k += 1
            if k > 12:
                raise AnalysisBroken("%s takes more than 12 locks" % name)
        return k - 1

    d = lambda m, t: "%s of %s" % (t, "".join(n for i, n in enumerate(NAMES) if m >> i & 1) or "nothing")
    for m in range(8):
        expect("R1-counters", "Built", args_of(m, "v"), [(table_of(m, "v"),)], d(m, "setting"))
        expect("R1-counters", "AllKeeps", args_of(m, "v"), [(table_of(m, "v"),) * 2], d(m, "listing"))
        for i, n in enumerate(NAMES):
            t = table_of(m, "v")
            t[n] = val("new")
            expect("R1-counters", "Set", args_of(m, "v") + [n, val("new")], [(t,)], "setting %s again" % n)
            f, ps = w.run("Get", args_of(m, "v") + [n])
            for p in ps:
                have = m >> i & 1
                key = "Get|%s|%d" % (n, m)
                if not ck.require(p.ok == bool(have), "R1-counters", f, None, key,
                                  "reading counter %s %s" % (n, "that is present fails" if have else "that was never set succeeds"), p):
                    continue
                if have:
                    ck.require(teq(p, value(p, p.okval()), val("v" + n)), "R1-counters", f, None, key,
                               "counter %s reads as %s" % (n, show(value(p, p.okval()))), p)
    for m in range(8):
        for o in range(8):
            a = args_of(m, "v") + args_of(o, "x")
            x, y = table_of(m, "v"), table_of(o, "x")
            expect("R2-merge", "Merge", a, [(merged(x, y), y)], "merging %s into %s" % (d(o, "counters"), d(m, "those")))
            expect("R3-replace", "Overwrite", a, [(y, y)], "replacing %s by %s" % (d(m, "counters"), d(o, "those")))
    for m in range(4):
        for o in range(4):
            x, y = table_of(m, "v"), table_of(o, "x")
            expect("R2-merge", "MergeTwice", args_of(m, "v")[:4] + args_of(o, "x")[:4], [(merged(merged(x, y), y), y)], "merging twice")
    for m in range(4):
        for n in ("MergeSelf", "MergeNull", "OverwriteSelf", "OverwriteNull"):
            expect("R4-nothing", n, args_of(m, "v")[:4], [(table_of(m, "v"),)], n)
    x, y, z = val("x"), val("y"), val("z")
    expect("R2-merge", "Apart", [ZERO, x, y, z], [({"a": add(x, y)}, {"a": z, "c": z})], "changing the source after a merge")
    expect("R3-replace", "Apart", [ONE, x, y, z], [({"a": y}, {"a": z, "c": z})], "changing the source after a replacement")
    # another thread
    other = table_of(7, "o")
    for m in (0, 3, 7):
        for o in (2, 5, 7):
            x, y = table_of(m, "v"), table_of(o, "x")
            a = args_of(m, "v") + args_of(o, "x")
            for om in (1, 2, 6, 7):
                z = table_of(om, "o")
                oa = lambda w, om=om: args_of(om, "o")
                concurrent("R5-atomic", "Merge", a, [(merged(merged(x, z), y), y)], "OtherMerge", oa, "merging")
                # a replacement at some point of the merge: each merged counter may come before or after it
                keys = sorted(y)
                alts = []
                for b in range(1 << len(keys)):
                    t = dict(z)
                    for j, k in enumerate(keys):
                        if b >> j & 1:
                            t = merged(t, {k: y[k]})
                    alts.append((t, y))
                concurrent("R5-atomic", "Merge", a, alts, "OtherOverwrite", oa, "merging")
                concurrent("R5-atomic", "Overwrite", a, [(y, y), (merged(y, z), y)], "OtherMerge", oa, "replacing")
                concurrent("R5-atomic", "Overwrite", a, [(y, y), (z, y)], "OtherOverwrite", oa, "replacing")
    for n in NAMES:
        for m in (0, 7):
            t = table_of(m, "v")
            t2 = dict(t)
            t2[n] = val("new")
            for om in (1, 2, 4, 7):
                z = table_of(om, "o")
                oa = lambda w, om=om: args_of(om, "o")
                b = merged(t, z)
                b[n] = val("new")
                concurrent("R5-atomic", "Set", args_of(m, "v") + [n, val("new")], [(b,), (merged(t2, z),)], "OtherMerge", oa, "setting")
                concurrent("R5-atomic", "AllKeeps", args_of(m, "v"), [(t, merged(t, z)), (merged(t, z),) * 2], "OtherMerge", oa, "listing")
    for over in (0, 1):
        f, ps = w.run("Cross", [val("x"), val("y"), c(over)])
        ck.require(not conc.order_clash(th.edges), "R6-locks", f, None, "Cross|%d" % over,
                   "merging in both directions takes the two locks in both orders")
    conc.lockset(ck, "R6-locks", "paimon::MetricsImpl")
    f = ck.fn(K + "Merge")
    for k, t in sorted(th.dead.items(), key=str):
        ck.bad("R6-locks", f, None, "again|%s" % show(k[0]), t)
    ck.ok("R6-locks")
