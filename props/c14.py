"""Bit-sliced index: predicates select exactly the rows whose value satisfies them.

The rows of slice i and of the not-null bitmap are unknown sets; the value of a row x is then
min + sum of 2^i over the slices that contain x.  Every predicate is interpreted for all index
shapes up to four slices and all literals around the value range (and some wide ones); the membership formula of
the result must be equivalent to the comparison of that value with the literal for every combination of bits."""
import bitmap as B
import seq
from c12 import heap_of, res_loc
from dom import NULL, ONE, ZERO, c, ge, mk_eq0, mk_ge0, op, sub
from rules import AnalysisBroken, Path, show, teq
from specs import AND, IFF, IMP, NOT, OR, valid

PREFIXES = ["common/file_index/bsi/bit_slice_index_roaring", "common/utils/roaring_bitmap32"]
MIN_OBLIGATIONS = 500
RULES = {
    "R1-shape": "an index over [min, max] has one slice per bit of max - min; bad bounds are refused",
    "R2-append": "appending a row sets exactly the bits of its value and marks the row; rows twice and values out of range are refused without a trace",
    "R3-predicate": "a predicate returns exactly the rows whose value satisfies it",
    "R4-observe": "the not-null rows, emptiness and equality report the index's contents",
    "R5-own": "a result can be changed without changing the index",
}
C = "paimon::BitSliceIndexRoaringBitmap"
BM = "paimon::RoaringBitmap32"
X = ("v", "x")


def by_type(eng, cls, l, pred):
    r = eng.prog.records.get(cls)
    if r is None:
        raise AnalysisBroken("anchor class %s is gone" % cls)
    fs = [f for f in r["fields"] if pred(f["t"])]
    if len(fs) != 1:
        raise AnalysisBroken("the parts of %s are not recognised" % cls)
    return ("F", l, fs[0]["n"])


class Index:
    def __init__(self, ck, lo, hi, sets=True):
        self.ck = ck
        self.lo, self.hi = lo, hi
        self.eng = ck.c14eng
        st = self.eng.new_state()
        f = ck.fn(C + "::Appender::Create", 2)
        ps = ck.run(f, self.eng, args=[c(lo), c(hi)], st=st)
        if len(ps) != 1:
            raise AnalysisBroken("creating an index has %d paths" % len(ps))
        p = ps[0]
        self.create = f
        self.p = p
        self.ok = p.ok
        if not p.ok:
            return
        self.app = res_loc(p, p.okval())
        q = ck.run(ck.fn(C + "::Appender::Build", 0), self.eng, this=self.app, args=[], st=p.st)
        if len(q) != 1:
            raise AnalysisBroken("building an index has %d paths" % len(q))
        self.st = q[0].st
        v = q[0].val
        if v[0] == "ref":
            v = self.eng.read(self.st, v[1], None)
        if v[0] != "addr":
            raise AnalysisBroken("the built index is not understood: " + show(v))
        self.loc = v[1]
        self.n = None
        cs = self.cells(self.st)
        self.n = len(cs)
        if sets:
            self.st.store[self.heap(self.st, None)] = ("v", "set:E")
            for i in range(self.n):
                self.st.store[self.heap(self.st, i)] = ("v", "set:S%d" % i)

    def cells(self, st):
        l = by_type(self.eng, C, self.loc, lambda t: "std::vector<" in t)
        cs = seq.cells(self.eng, st, l)
        if cs is None:
            raise AnalysisBroken("the slices are not understood")
        return cs

    def heap(self, st, i):
        if i is None:
            l = by_type(self.eng, C, self.loc, lambda t: t.strip() == BM)
        else:
            x = self.cells(st)[i]
            l = x[1] if x[0] == "ref" else None
        h = l and heap_of(self.eng, st, l, BM)
        if h is None:
            raise AnalysisBroken("bitmap %s of the index is not understood" % i)
        return h

    def set(self, st, i):
        return B.norm(self.eng.read(st, self.heap(st, i), None))


E_ = op("has", ("v", "set:E"), X)


def bit(i):
    return op("has", ("v", "set:S%d" % i), X)


def cmpf(n, lit, rel):
    """formula: value(x) - min  rel  lit, bits compared from the top; 0 <= lit < 2^n"""
    f = rel in ("==", "<=", ">=")
    for i in range(n):
        b = (lit >> i) & 1
        if rel == "==":
            f = AND(bit(i) if b else NOT(bit(i)), f)
        elif rel in ("<", "<="):
            f = OR(NOT(bit(i)), f) if b else AND(NOT(bit(i)), f)
        else:
            f = AND(bit(i), f) if b else OR(bit(i), f)
    return f


def spec(ix, lit, rel):
    d = lit - ix.lo
    if d < 0:
        return {"==": False, "<": False, "<=": False, ">": True, ">=": True}[rel]
    if d >= 1 << ix.n:
        return {"==": False, "<": True, "<=": True, ">": False, ">=": False}[rel]
    return cmpf(ix.n, d, rel)


PREDS = (("Equal", "=="), ("LessThan", "<"), ("LessOrEqual", "<="), ("GreaterThan", ">"), ("GreaterOrEqual", ">="))


def check(ck):
    ck.c14eng = ck.engine(seq=True, max_depth=24, handlers=B.HANDLERS)
    ck.c14eng.join = False
    ck.c14eng.deep = frozenset([BM])
    shapes(ck)
    predicates(ck)
    appends(ck)
    observers(ck)


def shapes(ck):
    for lo, hi in ((0, 0), (7, 7), (0, 1), (3, 4), (0, 7), (0, 8), (5, 20), (0, 2 ** 31), (1, 2 ** 32), (0, 2 ** 62), (0, 2 ** 63 - 1)):
        ix = Index(ck, lo, hi, sets=False)
        ck.require(ix.ok is True, "R1-shape", ix.create, None, "create", "the bounds [%d, %d] are refused" % (lo, hi), ix.p)
        if ix.ok:
            want = (hi - lo).bit_length()
            ck.require(ix.n == want, "R1-shape", ix.create, None, "slices", "an index over [%d, %d] has %d slices instead of %d" % (lo, hi, ix.n, want), ix.p)
            for i in [None] + list(range(ix.n)):
                ck.require(ix.set(ix.st, i) == B.EMPTY, "R1-shape", ix.create, None, "empty", "a new index is not empty", ix.p)
    for lo, hi in ((1, 0), (-1, 5), (-5, -1), (2 ** 40, 0)):
        ix = Index(ck, lo, hi, sets=False)
        ck.require(ix.ok is False, "R1-shape", ix.create, None, "bounds", "the bounds [%d, %d] are accepted" % (lo, hi), ix.p)


def cases():
    out = []
    for n in range(5):
        for lo in (0, 5):
            ms = [0] if n == 0 else list(range(1 << (n - 1), 1 << n))
            if n == 4:
                ms = [8, 11, 15]
            for m in ms:
                lits = range(max(lo - 2, 0) if lo else -1, lo + m + 3)
                out.append((lo, lo + m, list(lits)))
    out.append((3, 3 + 2 ** 40 + 6, [2 ** 33 + 1, 2 ** 40 + 5, 2 ** 40 + 10]))
    out.append((0, 2 ** 62 + 1, [1, 2 ** 61 + 7, 2 ** 62, 2 ** 62 + 2]))
    return out


def predicates(ck):
    for lo, hi, lits in cases():
        ix = Index(ck, lo, hi)
        if not ix.ok:
            continue
        # stored values never exceed max
        inv = IMP(E_, cmpf(ix.n, hi - lo, "<=")) if hi - lo < 1 << ix.n else True
        # a row of a slice is a row of the index
        for name, rel in PREDS:
            f = ck.fn(C + "::" + name, 1)
            for lit in lits:
                for p in ck.run(f, ix.eng, this=ix.loc, args=[c(lit)], st=ix.st.copy()):
                    if p.ok is not True:
                        ck.require(p.ok is None, "R3-predicate", f, None, name + "|error", "%s(%d) over [%d, %d] is an error" % (name, lit, lo, hi), p)
                        if p.ok is None:
                            raise AnalysisBroken("%s: outcome not decided" % f["fn"])
                        continue
                    r = res_loc(p, p.okval())
                    h = heap_of(p.eng, p.st, r, BM)
                    if h is None:
                        ck.oblig("R3-predicate")
                        ck.bad("R3-predicate", f, None, name + "|none", "%s(%d) returns no set" % (name, lit), p)
                        continue
                    S = B.norm(p.eng.read(p.st, h, None))
                    if not B.is_set(S):
                        raise AnalysisBroken("%s: result not understood: %s" % (f["fn"], show(S)))
                    facts = p.st.facts.copy()
                    goal = IFF(B.member(S, X), AND(E_, spec(ix, lit, rel)))
                    sub_e = [IMP(bit(i), E_) for i in range(ix.n)] if ix.n <= 5 else []
                    ok, cex = valid(facts, IMP(AND(inv, *sub_e) if sub_e else inv, goal), 60000)
                    ck.oblig("R3-predicate")
                    if not ok and not B.known(S):
                        raise AnalysisBroken("%s: the rows are not understood: %s" % (f["fn"], show(S)[:200]))
                    if not ok:
                        row = ["row %s" % ("in E" if cex.truth(E_) else "not in E")] + ["bit %d = %s" % (i, {True: 1, False: 0, None: "any"}[cex.truth(bit(i))]) for i in range(ix.n)]
                        ck.bad("R3-predicate", f, None, name + "|rows", "%s(%d) over values in [%d, %d]: a row is selected wrongly" % (name, lit, lo, hi), row)
                    for i in [None] + list(range(ix.n)):
                        s0 = ("v", "set:E" if i is None else "set:S%d" % i)
                        ck.require(B.strip_opt(ix.set(p.st, i)) == s0, "R5-own", f, None, name + "|changed", "%s changes the index" % name, p)


def appends(ck):
    f = ck.fn(C + "::Appender::Append", 2)
    shapes = [(0, 0), (5, 5), (0, 1), (5, 8), (0, 7), (3, 10), (0, 12)]
    jobs = [(lo, hi, list(range(max(lo - 3, -2), hi + 3))) for lo, hi in shapes]
    jobs.append((3, 3 + 2 ** 40 + 6, [3, 4, 2 ** 33 + 4, 2 ** 40 + 9, 2 ** 40 + 10, 2, 2 ** 31 + 3]))
    jobs.append((0, 2 ** 62 + 1, [2 ** 62 + 1, 2 ** 61, 2 ** 62 + 2, -1]))
    for lo, hi, vals in jobs:
        ix = Index(ck, lo, hi)
        if not ix.ok:
            continue
        rid = ix.eng.typed(("v", "rid"), "int")
        st0 = ix.st.copy()
        st0.facts.assume(ge(rid, ZERO), True)
        had = op("has", ("v", "set:E"), rid)
        for val in vals:
            for p in ck.run(f, ix.eng, this=ix.app, args=[rid, c(val)], st=st0.copy()):
                if p.ok is None:
                    raise AnalysisBroken("%s: outcome not decided" % f["fn"])
                t = p.st.facts.truth(had)
                good = lo <= val <= hi
                what = "appending %d to an index over [%d, %d]" % (val, lo, hi)
                if good and t is None:
                    ck.oblig("R2-append")
                    ck.bad("R2-append", f, None, "twice", "%s does not ask whether the row is present" % what, p)
                    continue
                good = good and t is False
                ck.require(p.ok is good, "R2-append", f, None, "accept", "%s %s" % (what, "is refused" if good else "is accepted although " + ("the row is present" if lo <= val <= hi else "the value is out of range")), p)
                if bad_access(p):
                    ck.oblig("R2-append")
                    ck.bad("R2-append", f, None, "bounds", "%s uses a slice that does not exist" % what, p)
                    continue
                g = p.eng.typed(("v", "x"), "long")
                for i in [None] + list(range(ix.n)):
                    S = ix.set(p.st, i)
                    base = ("v", "set:E" if i is None else "set:S%d" % i)
                    for x in (rid, X):
                        facts = p.st.facts.copy()
                        if x is X:
                            facts.assume(mk_eq0(sub(X, rid)), False)
                        want = B.member(base, x)
                        if x is rid and p.ok:
                            b = i is None or bool(((val - lo) >> i) & 1) if good else None
                            if b is None:
                                continue
                            want = True if b else want
                        ok, _ = valid(facts, IFF(B.member(S, x), want))
                        ck.require(ok, "R2-append", f, None, "bits" if p.ok else "trace", "after %s (%s) %s is %s" % (
                            what, "done" if p.ok else "refused", "the row set" if i is None else "slice %d" % i, show(S)), p)


def bad_access(p):
    return any(str(e.kind).startswith("bad") or (e.kind == "oob") for e in p.events())


def observers(ck):
    ix = Index(ck, 0, 5)
    f = ck.fn(C + "::IsNotNull", 0)
    for p in ck.run(f, ix.eng, this=ix.loc, args=[], st=ix.st.copy()):
        S = B.norm(p.eng.read(p.st, heap_of(p.eng, p.st, res_loc(p, p.val), BM), None))
        ck.require(S == ("v", "set:E"), "R4-observe", f, None, "notnull", "the not-null rows are %s" % show(S), p)
    f = ck.fn(C + "::Appender::IsNotEmpty", 0)
    n = B.card(ix.eng, ix.st, ("v", "set:E"))
    for p in ck.run(f, ix.eng, this=ix.app, args=[], st=ix.st.copy()):
        g = bool(p.val[1]) if p.val[0] == "c" else p.val
        ok, _ = valid(p.st.facts, IFF(g, NOT(mk_eq0(n))))
        ck.require(ok, "R4-observe", f, None, "empty", "IsNotEmpty() is %s" % show(p.val), p)
    # equality: equal to itself and to an index of the same parts, different when any part differs
    f = ck.fn(C + "::operator==", 1)
    for p in ck.run(f, ix.eng, this=ix.loc, args=[("ref", ix.loc)], st=ix.st.copy()):
        ck.require(p.val == ONE, "R4-observe", f, None, "self", "an index differs from itself", p)
    for what in ("same", "min", "max", "rows", "slice0", "slice2", "slices"):
        a = Index(ck, 0, 5)
        lo, hi = {"min": (1, 5), "max": (0, 6), "slices": (0, 3)}.get(what, (0, 5))
        b = Index(ck, lo, hi)
        st = a.st.copy()
        for k, v in b.st.store.items():
            st.store.setdefault(k, v)
        st.ghost.update(b.st.ghost)
        if what == "rows":
            st.store[b.heap(st, None)] = ("v", "set:E2")
        elif what.startswith("slice") and what != "slices":
            st.store[b.heap(st, int(what[5:]))] = ("v", "set:T")
        if a.loc == b.loc:
            raise AnalysisBroken("two indexes are not told apart")
        diff = {"rows": [(("v", "set:E"), ("v", "set:E2"))], "slice0": [(("v", "set:S0"), ("v", "set:T"))], "slice2": [(("v", "set:S2"), ("v", "set:T"))]}.get(what)
        if diff:
            want = op("Seq", *sorted(diff[0], key=repr))
        else:
            want = what == "same"
        for p in ck.run(f, a.eng, this=a.loc, args=[("ref", b.loc)], st=st):
            g = bool(p.val[1]) if p.val[0] == "c" else p.val
            ok, _ = valid(p.st.facts, IFF(g, want))
            ck.require(ok, "R4-observe", f, None, "equal|" + what, "two indexes that %s compare as %s" % ("are the same" if what == "same" else "may differ in " + what, show(p.val)), p)
