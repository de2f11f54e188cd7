"""File index results never skip a file or row that may match.

A result stands for a set of rows: "remain" for all rows of the file, "skip" for none, a bitmap result for its rows.
Clients (inst/c11.cpp, public interface only) combine results of every kind; bitmaps hold up to two unknown rows and the
order of the rows of both operands is partitioned completely.  The combination must stand for exactly the intersection or
union (a superset where the left operand is of a kind that cannot be narrowed)."""
import bitmap as B
from c13 import interleavings, label, same_list, vals
from dom import NULL, ONE, ZERO, c, ge, op
from rules import AnalysisBroken, show
from specs import constref, eq, loc_of, lt, value, vec

PREFIXES = ["common/file_index/file_index_result", "common/file_index/file_index_reader", "common/file_index/bitmap/bitmap_index_result", "common/utils/roaring_bitmap32"]
CLIENTS = ["c11"]
MIN_OBLIGATIONS = 300
RULES = {
    "R1-rows": "a combination stands for exactly the rows of the intersection or union",
    "R2-never-skip": "a combination remains whenever a row may match",
    "R3-error": "an error while computing rows is reported, and nothing else is an error",
    "R4-reader": "a reader that cannot decide a predicate keeps the file; value lists combine the single answers",
    "R5-once": "the rows of a lazy result are computed once",
}
K = "paimon::client11::"
R = "paimon::FileIndexResult"
CLS = {"B": "paimon::BitmapIndexResult", "R": "paimon::Remain", "S": "paimon::Skip", "O": R, "o": R, "F": "paimon::BitmapIndexResult"}
NAME = {"B": "a bitmap", "R": "remain", "S": "skip", "O": "another remaining result", "o": "another skipping result", "F": "a failing bitmap"}
ALL = "all"


class W:
    def __init__(self, ck):
        self.ck = ck
        self.eng = ck.engine(seq=True, max_depth=60, handlers=B.HANDLERS)
        self.eng.join = False
        self.eng.recursion = 4
        self.eng.deep = frozenset(["paimon::RoaringBitmap32"])
        self.n = 0

    def client(self, name, args, st):
        return self.ck.run(self.ck.fn(K + name), self.eng, args=args, st=st)

    def one(self, name, args, st):
        ps = self.client(name, args, st)
        if len(ps) != 1:
            raise AnalysisBroken("%s has %d paths" % (name, len(ps)))
        return ps[0]

    def ints(self, st, xs):
        self.n += 1
        return vec(self.eng, st, ("T", "arr:%d" % self.n), xs, "int")

    def ptr(self, st, v, what="result"):
        if v[0] == "okv":
            v = v[1]
        if v[0] == "ref":
            v = self.eng.read(st, v[1], None)
        if v[0] != "addr" and v != NULL:
            raise AnalysisBroken("%s not understood: %s" % (what, show(v)))
        self.n += 1
        return constref(self.eng, st, v, "p%d" % self.n)

    def make(self, kind, st, rows):
        name, args = {"B": ("MakeBitmap", None), "R": ("MakeRemain", []), "S": ("MakeSkip", []), "O": ("MakeOther", [ONE]),
                      "o": ("MakeOther", [ZERO]), "F": ("MakeFailing", [])}[kind]
        p = self.one(name, [self.ints(st, rows)] if args is None else args, st)
        return p.st, self.ptr(p.st, p.val)


def rows_of(kind, xs):
    return ALL if kind in "RO" else [] if kind in "So" else xs


def setup(w, n, m, order, pre="ab"):
    st = w.eng.new_state()
    a = [w.eng.typed(("v", "%s%d" % (pre[0], i)), "int") for i in range(n)]
    b = [w.eng.typed(("v", "%s%d" % (pre[1], i)), "int") for i in range(m)]
    prev = None
    for i, j in order:
        x = a[i] if i is not None else b[j]
        if i is not None and j is not None:
            st.facts.assume(eq(a[i], b[j]), True)
        st.facts.assume(ge(x, ZERO) if prev is None else lt(prev, x), True)
        prev = x
    return st, a, b


def expect(w, ck, f, key, st, r, rows, what, lab, exact=True, rule="R1-rows"):
    """the result at r stands for the rows (ALL, or a list)"""
    if w.eng.read(st, r[1], None) == NULL:
        ck.require(False, rule, f, None, key + "|null", "%s is no result at all" % what, lab)
        return
    h = w.one("HasRows", [r], st.copy())
    hv = h.st.facts.truth(value(h))
    if hv is None:
        raise AnalysisBroken("kind of result not understood")
    for p in w.client("IsRemain", [r], st.copy()):
        if not ck.require(p.ok is True, "R3-error", f, None, key + "|spurious", "%s: asking whether the file remains fails" % what, lab + p.cond()):
            continue
        v = p.st.facts.truth(value(p, p.okval()))
        if v is None:
            raise AnalysisBroken("%s: remain not understood: %s" % (what, show(p.val)))
        may = rows == ALL or bool(rows)
        if may:
            ck.require(v is True, "R2-never-skip", f, None, key + "|skips", "%s skips the file although rows may match" % what, lab)
        else:
            ck.require(v is False, rule, f, None, key + "|keeps", "%s keeps the file although no row matches" % what, lab)
    if hv:
        for p in w.client("Rows", [r], st.copy()):
            if not ck.require(p.ok is True, "R3-error", f, None, key + "|spurious", "%s: reading the rows fails" % what, lab + p.cond()):
                continue
            got = vals(p, p.okval())
            good = rows != ALL and same_list(p, got, rows)
            ck.require(good, rule, f, None, key + "|rows", "%s has rows [%s], expected %s" % (what, ", ".join(map(show, got)), "all rows" if rows == ALL else "[%s]" % ", ".join(map(show, rows))), lab)
    else:
        ck.require(rows == ALL or not rows or not exact, rule, f, None, key + "|rows", "%s stands for %s, expected [%s]" % (what, "all or no rows", ", ".join(map(show, rows)) if rows != ALL else ""), lab)


def fails(w, ck, f, key, st, r, what):
    for o in ("IsRemain", "IsRemain"):
        ps = w.client(o, [r], st)
        for p in ps:
            ck.require(p.ok is False, "R3-error", f, None, key + "|swallowed", "%s: asking whether the file remains succeeds although the rows cannot be computed" % what, p)
        st = ps[0].st


def check(ck):
    w = W(ck)
    kinds = "BRSOo"
    for ka in kinds:
        for kb in kinds:
            for n in range(3) if ka == "B" else (0,):
                for m in range(3) if kb == "B" else (0,):
                    for order in interleavings(n, m):
                        for o in ("And", "Or"):
                            pair(ck, w, ka, kb, n, m, order, o)
    errors(ck, w)
    readers(ck, w)
    once(ck, w)


def combine(o, ra, rb, order, a, b):
    if o == "And":
        if ra == ALL:
            return rb
        if rb == ALL:
            return ra
        if not ra or not rb:
            return []
        return [a[i] for i, j in order if i is not None and j is not None]
    if ALL in (ra, rb):
        return ALL
    if not ra or not rb:
        return ra or rb
    return [a[i] if i is not None else b[j] for i, j in order]


def pair(ck, w, ka, kb, n, m, order, o):
    st, a, b = setup(w, n, m, order)
    st, ra = w.make(ka, st, a)
    st, rb = w.make(kb, st, b)
    f = ck.fn(CLS[ka] + "::" + o)
    what = "%s of %s and %s" % (o, NAME[ka], NAME[kb])
    key = "%s|%s%s" % (o, ka, kb)
    rows = combine(o, rows_of(ka, a), rows_of(kb, b), order, a, b)
    # a left operand of another kind cannot be narrowed: it stays what it is when the right one keeps the file
    exact = not (ka in "Oo" and kb == "B")
    for p in w.client(o, [ra, rb], st):
        if ck.require(p.ok is True, "R3-error", f, None, key + "|spurious", what + " is refused", label(order) + p.cond()):
            r = w.ptr(p.st, p.okval())
            expect(w, ck, f, key, p.st, r, rows, what, label(order), exact)
            for rr, kk, xs, nm in ((ra, ka, a, "left"), (rb, kb, b, "right")):
                expect(w, ck, f, key + "|" + nm, p.st, rr, rows_of(kk, xs), "the %s operand after %s" % (nm, what), label(order))


def errors(ck, w):
    st, r = w.make("F", w.eng.new_state(), [])
    fails(w, ck, ck.fn("paimon::BitmapIndexResult::GetBitmap"), "failing", st, r, "a bitmap result whose supplier fails")
    for ka, kb in ("FB", "BF", "FF"):
        for o in ("And", "Or"):
            st, a, b = setup(w, 1, 1, [(0, None), (None, 0)])
            st, ra = w.make(ka, st, a)
            st, rb = w.make(kb, st, b)
            f = ck.fn("paimon::BitmapIndexResult::" + o)
            what = "%s of %s and %s" % (o, NAME[ka], NAME[kb])
            for p in w.client(o, [ra, rb], st):
                ck.oblig("R3-error")
                if p.ok is True:
                    fails(w, ck, f, "%s|%s%s" % (o, ka, kb), p.st, w.ptr(p.st, p.okval()), what)
    # an operand of another kind that cannot answer
    for ka in "BO":
        for o in ("And", "Or"):
            st, a, b = setup(w, 1, 0, [(0, None)])
            st, ra = w.make(ka, st, a)
            p = w.one("MakeOtherFailing", [], st)
            rb = w.ptr(p.st, p.val)
            f = ck.fn(CLS[ka] + "::" + o)
            for q in w.client(o, [ra, rb], p.st):
                ck.require(q.ok is False, "R3-error", f, None, "%s|%s other" % (o, ka), "%s of %s and a result that cannot answer succeeds" % (o, NAME[ka]), q)


PREDICATES = ("IsNull", "IsNotNull", "Equal", "NotEqual", "LessThan", "LessOrEqual", "GreaterThan", "GreaterOrEqual", "StartsWith", "EndsWith", "Contains", "In", "NotIn")
# predicates no row of a file without values satisfies; nothing is promised for the others but that null rows stay
EMPTY_SKIPS = ("IsNotNull", "Equal", "LessThan", "LessOrEqual", "GreaterThan", "GreaterOrEqual", "StartsWith", "EndsWith", "Contains", "In")


def literals(w, st, n):
    w.n += 1
    l = ("T", "lits:%d" % w.n)
    st.store[l] = op("seq", *[("ref", ("T", "lit:%d:%d" % (w.n, i), "paimon::Literal")) for i in range(n)])
    return ("ref", l)


def readers(ck, w):
    for nm in PREDICATES:
        f = ck.fn("paimon::FileIndexReader::Visit" + nm)
        for n in (1, 2) if nm in ("In", "NotIn") else (0,):
            st = w.eng.new_state()
            arg = literals(w, st, n) if nm in ("In", "NotIn") else ("ref", ("T", "lit", "paimon::Literal"))
            for p in w.client("Default" + nm, [arg], st):
                if ck.require(p.ok is True, "R3-error", f, None, nm + "|default", "the default answer is an error", p):
                    expect(w, ck, f, nm + "|default", p.st, w.ptr(p.st, p.okval()), ALL, "the default answer", [], rule="R4-reader")
            st = w.eng.new_state()
            arg = literals(w, st, n) if nm in ("In", "NotIn") else ("ref", ("T", "lit", "paimon::Literal"))
            cls = "paimon::EmptyFileIndexReader::Visit" + nm
            g = ck.fn(cls) if ck.has_fn(cls) else f
            for p in w.client("Empty" + nm, [arg], st):
                if ck.require(p.ok is True, "R3-error", g, None, nm + "|empty", "the answer of the empty index is an error", p):
                    want = [] if nm in EMPTY_SKIPS else ALL
                    expect(w, ck, g, nm + "|empty", p.st, w.ptr(p.st, p.okval()), want, "the answer of the empty index", [], rule="R4-reader")
    # value lists
    for o, nm in (("Or", "In"), ("And", "NotIn")):
        f = ck.fn("paimon::FileIndexReader::Visit" + nm)
        for k in ("B", "R", "S", "BB", "BR", "RB", "BS", "SB", "RS", "SR", "BBB", "SBB", "BSB", "RSB", "SSR", "RRS", "SRS", "RSR"):
            nb = k.count("B")
            orders = interleavings(1, 1) if nb == 2 else [[(i, None) for i in range(nb)]]
            if nb == 3:
                orders = [[(0, None), (1, None), (2, None)]]
            for order in orders:
                st, a, b = setup(w, max(1, 3 if nb == 3 else 1), 1 if nb == 2 else 0, order if nb else [(0, None)])
                pool = list(a) + list(b) if nb != 3 else list(a)
                ptrs, rows = [], []
                for kk in k:
                    xs = [pool.pop(0)] if kk == "B" else []
                    st, r = w.make(kk, st, xs)
                    ptrs.append(w.eng.read(st, r[1], None))
                    rows.append(rows_of(kk, xs))
                l = ("T", "results:%d" % w.n)
                arr = vec(w.eng, st, l, ptrs, "std::shared_ptr<paimon::FileIndexResult>")
                acc = rows[0]
                same = nb == 2 and order == [(0, 0)]
                for x in rows[1:]:
                    acc = fold(o, acc, x, same, order, a, b)
                lits = literals(w, st, len(k))
                for p in w.client(nm, [arr, lits], st):
                    if ck.require(p.ok is True, "R3-error", f, None, "%s|%s" % (nm, k), "a list of %d values is refused" % len(k), p):
                        expect(w, ck, f, "%s|%s" % (nm, k), p.st, w.ptr(p.st, p.okval()), acc, "%s over answers %s" % (nm, [NAME[x] for x in k]), label(order), rule="R4-reader")
    for nm in ("In", "NotIn"):
        f = ck.fn("paimon::FileIndexReader::Visit" + nm)
        for n in (2, 3):
            st = w.eng.new_state()
            for p in w.client(nm + "Failing", [literals(w, st, n)], st):
                ck.require(p.ok is False, "R3-error", f, None, nm + "|error", "an error of one of %d values is lost" % n, p)


def fold(o, x, y, same, order, a, b):
    if o == "And":
        if x == ALL:
            return y
        if y == ALL:
            return x
        if not x or not y:
            return []
        return x if same else []
    if ALL in (x, y):
        return ALL
    if not x or not y:
        return x or y
    if same:
        return x
    if b:
        return [a[i] if i is not None else b[j] for i, j in order]
    return x + y


def once(ck, w):
    f = ck.fn("paimon::BitmapIndexResult::GetBitmap")
    for n in range(3):
        st, a, _ = setup(w, n, 0, [(i, None) for i in range(n)])
        cnt = ("T", "count")
        st.store[cnt] = ZERO
        p = w.one("MakeCounted", [w.ints(st, a), ("addr", cnt)], st)
        r = w.ptr(p.st, p.val)
        ck.require(p.read(cnt) == ZERO, "R5-once", f, None, "lazy", "rows are computed before they are asked for", p)
        st = p.st
        for o in ("IsRemain", "Rows", "IsRemain"):
            p = w.one(o, [r], st)
            ck.require(p.read(cnt) == ONE, "R5-once", f, None, "once", "the rows were computed %s times after %s" % (show(p.read(cnt)), o), p)
            st = p.st
