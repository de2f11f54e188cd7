"""Global index results are sets of row ids, scored results keep each row's score.

Clients (inst/c13.cpp, public interface only) build results of every kind from up to two or three unknown row ids,
combine them and read them back through every observer.  The order of the ids of both operands is partitioned completely
(every interleaving with ties), so that on each path the expected list of ids and scores is known."""
import bitmap as B
import seq
from c12 import setof
from dom import NULL, ONE, ZERO, add, c, ge, mk_eq0, mk_ge0, op, sub
from rules import AnalysisBroken, Path, show, teq
from specs import AND, IFF, NOT, OR, cells_of, constref, eq, le, loc_of, lt, need, valid, value, vec

PREFIXES = ["common/global_index/bitmap", "common/global_index/global_index_result", "common/utils/roaring_bitmap", "common/utils/range."]
CLIENTS = ["c13"]
MIN_OBLIGATIONS = 1000
RULES = {
    "R1-ids": "a combination holds exactly the row ids of the intersection, union or shift",
    "R2-scores": "scores stay with their row id and are kept exactly where they are unambiguous",
    "R3-error": "a failing supplier and a union of scored results with a common row are errors; nothing else is",
    "R4-operands": "combining leaves the operands as they were",
    "R5-ranges": "ranges are maximal, ascending and cover exactly the ids; a result made from ranges holds exactly their ids",
    "R6-once": "the row ids of a lazy result are computed once",
}
K = "paimon::client13::"
G = "paimon::GlobalIndexResult"
CLS = {"B": "paimon::BitmapGlobalIndexResult", "V": "paimon::BitmapVectorSearchGlobalIndexResult", "P": G, "F": "paimon::BitmapGlobalIndexResult"}


def interleavings(n, m):
    """all orders with ties of a0<a1<.. and b0<b1<..: lists of (a index or None, b index or None)"""
    if n == 0 and m == 0:
        return [[]]
    out = []

    def go(i, j, acc):
        if i == n and j == m:
            out.append(acc)
            return
        if i < n:
            go(i + 1, j, acc + [(i, None)])
        if j < m:
            go(i, j + 1, acc + [(None, j)])
        if i < n and j < m:
            go(i + 1, j + 1, acc + [(i, j)])
    go(0, 0, [])
    return out


class W:
    def __init__(self, ck):
        self.ck = ck
        self.eng = ck.engine(seq=True, max_depth=60, handlers=B.HANDLERS)
        self.eng.join = False
        self.eng.recursion = 4
        self.eng.deep = frozenset(["paimon::RoaringBitmap64"])
        self.n = 0

    def client(self, name, args, st):
        return self.ck.run(self.ck.fn(K + name), self.eng, args=args, st=st)

    def one(self, name, args, st):
        ps = self.client(name, args, st)
        if len(ps) != 1:
            raise AnalysisBroken("%s has %d paths" % (name, len(ps)))
        return ps[0]

    def longs(self, st, vals, t="long"):
        self.n += 1
        return vec(self.eng, st, ("T", "arr:%d" % self.n), vals, t)

    def ptr(self, st, v, name):
        self.n += 1
        if v[0] == "okv":
            v = v[1]
        if v[0] == "ref":
            v = self.eng.read(st, v[1], None)
        if v[0] != "addr":
            raise AnalysisBroken("result not understood: " + show(v))
        return constref(self.eng, st, v, "%s%d" % (name, self.n))

    def make(self, kind, st, ids, scores, name):
        """(state, reference to the pointer)"""
        if kind == "F":
            p = self.one("MakeFailing", [], st)
        elif kind == "V":
            p = self.one("MakeScored", [self.longs(st, ids), self.longs(st, scores, "float")], st)
        else:
            p = self.one({"B": "MakeBitmap", "P": "MakePlain"}[kind], [self.longs(st, ids)], st)
        return p.st, self.ptr(p.st, p.val, name)


def vals(p, v=None):
    """element values of a returned list"""
    cs = cells_of(p, p.val if v is None else v)
    if cs is None:
        raise AnalysisBroken("list not understood: " + show(p.val))
    return [p.eng.read(p.st, x[1], None) if x[0] == "ref" else x for x in cs]


def same_list(p, got, want):
    if len(got) == len(want) and all(teq(p, a, b) for a, b in zip(got, want)):
        return True
    need(got, "list")
    return False


def texts(xs):
    return "[%s]" % ", ".join(show(x) for x in xs)


def observe(w, ck, f, key, st, r, ids, scores, what, order):
    """compare all observers of the result with the expected ids and scores (None: no scores)"""
    out = {}
    for o in ("Ids", "BitmapIds"):
        for p in w.client(o, [r], st.copy()):
            if p.ok is not True:
                ck.require(False, "R3-error", f, None, key + "|spurious", "%s: reading the row ids fails" % what, order + p.cond())
                continue
            got = vals(p, p.okval())
            ck.require(same_list(p, got, ids), "R1-ids", f, None, key + "|ids", "%s: row ids %s, expected %s" % (what, texts(got), texts(ids)), order)
    for p in w.client("IsEmpty", [r], st.copy()):
        v = p.okval() if p.ok else None
        v = value(p, v) if v is not None else None
        ck.require(p.ok is True and p.st.facts.truth(v) is (not ids), "R1-ids", f, None, key + "|empty", "%s: emptiness is %s for %d row ids" % (what, show(v) if v else "an error", len(ids)), order)
    p = w.one("IsScored", [r], st.copy())
    sc = p.st.facts.truth(value(p))
    if sc is None:
        raise AnalysisBroken("kind of result not understood")
    ck.require(sc is (scores is not None), "R2-scores", f, None, key + "|kind", "%s: the result %s scores" % (what, "has" if sc else "has no"), order)
    if sc and scores is not None:
        for o, want in (("Scores", scores), ("ScoredIds", ids), ("ScoredScores", scores)):
            for p in w.client(o, [r], st.copy()):
                if o != "Scores" and p.ok is not True:
                    ck.require(False, "R3-error", f, None, key + "|spurious", "%s: reading the scores fails" % what, order)
                    continue
                got = vals(p, p.okval() if o != "Scores" else p.val)
                ck.require(same_list(p, got, want), "R2-scores", f, None, key + "|" + o, "%s: %s are %s, expected %s" % (what, o, texts(got), texts(want)), order)


def fails(w, ck, f, key, st, r, what):
    for o in ("Ids", "IsEmpty", "ToRanges", "Ids"):
        ps = w.client(o, [r], st)
        for p in ps:
            ck.require(p.ok is False, "R3-error", f, None, key + "|swallowed", "%s: %s succeeds although the row ids cannot be computed" % (what, o), p)
        st = ps[0].st
    return st


def check(ck):
    combine(ck)
    errors(ck)
    offsets(ck)
    ranges(ck)
    once(ck)


def setup(w, n, m, order):
    st = w.eng.new_state()
    a = [w.eng.typed(("v", "a%d" % i), "long") for i in range(n)]
    b = [w.eng.typed(("v", "b%d" % i), "long") for i in range(m)]
    prev = None
    for i, j in order:
        x = a[i] if i is not None else b[j]
        if i is not None and j is not None:
            st.facts.assume(eq(a[i], b[j]), True)
        if prev is None:
            st.facts.assume(ge(x, ZERO), True)
        else:
            st.facts.assume(lt(prev, x), True)
        prev = x
    sa = [w.eng.typed(("v", "sa%d" % i), "float") for i in range(n)]
    sb = [w.eng.typed(("v", "sb%d" % i), "float") for i in range(m)]
    return st, a, b, sa, sb


def label(order):
    return ["ids in order: " + " < ".join("a%d = b%d" % x if None not in x else "a%d" % x[0] if x[0] is not None else "b%d" % x[1] for x in order)] if order else ["no ids"]


def combine(ck):
    w = W(ck)
    top = 2 if ck.tier == "quick" else 3
    for ka in "BVP":
        for kb in "BVP":
            for n in range(top + 1):
                for m in range(top + 1):
                    if "P" in ka + kb and n + m > 3 and ck.tier == "quick":
                        continue
                    for order in interleavings(n, m):
                        for o in ("And", "Or"):
                            pair(ck, w, ka, kb, n, m, order, o)


def pair(ck, w, ka, kb, n, m, order, o):
    st, a, b, sa, sb = setup(w, n, m, order)
    st, ra = w.make(ka, st, a, sa, "A")
    st, rb = w.make(kb, st, b, sb, "B")
    f = ck.fn("%s::%s" % (CLS[ka] if ka != "P" else G, o))
    what = "%s of %s and %s" % (o, NAME[ka], NAME[kb])
    key = "%s|%s%s" % (o, ka, kb)
    both = [(i, j) for i, j in order if i is not None and j is not None]
    lab = label(order)
    if o == "And":
        ids = [a[i] for i, j in both]
        scores = [sa[i] for i, j in both] if ka == "V" and kb == "B" else None
    else:
        ids = [a[i] if i is not None else b[j] for i, j in order]
        scores = [sa[i] if i is not None else sb[j] for i, j in order] if ka == kb == "V" else None
    clash = o == "Or" and ka == kb == "V" and both
    for p in w.client(o, [ra, rb], st.copy()):
        if clash:
            ck.require(p.ok is False, "R3-error", f, None, key + "|clash", "%s with a common row is accepted" % what, lab)
            continue
        if not ck.require(p.ok is True, "R3-error", f, None, key + "|spurious", "%s is refused" % what, lab + p.cond()):
            continue
        r = w.ptr(p.st, p.okval(), "R")
        observe(w, ck, f, key, p.st, r, ids, scores, what, lab)
        # the operands read back as before, also after the result was computed
        qs = w.client("Ids", [r], p.st.copy())
        for q in qs:
            for rr, kk, xs, ss, nm in ((ra, ka, a, sa, "left"), (rb, kb, b, sb, "right")):
                for y in w.client("Ids", [rr], q.st.copy()):
                    ck.require(y.ok is True and same_list(y, vals(y, y.okval()), xs), "R4-operands", f, None, key + "|" + nm, "%s changes its %s operand" % (what, nm), lab)
                if kk == "V":
                    y = w.one("Scores", [rr], q.st.copy())
                    ck.require(same_list(y, vals(y), ss), "R4-operands", f, None, key + "|" + nm, "%s changes the scores of its %s operand" % (what, nm), lab)


NAME = {"B": "a bitmap result", "V": "a scored result", "P": "another result", "F": "a failing result"}


def errors(ck):
    w = W(ck)
    st, r = w.make("F", w.eng.new_state(), [], [], "F")
    fails(w, ck, ck.fn(CLS["B"] + "::GetBitmap"), "failing", st, r, "a bitmap result whose supplier fails")
    for ka, kb in (("F", "B"), ("F", "V"), ("F", "P"), ("F", "F"), ("B", "F"), ("V", "F"), ("P", "F")):
        for o in ("And", "Or"):
            st, a, b, sa, sb = setup(w, 1, 1, [(0, None), (None, 0)])
            st, ra = w.make(ka, st, a, sa, "A")
            st, rb = w.make(kb, st, b, sb, "B")
            f = ck.fn("%s::%s" % (CLS[ka] if ka != "P" else G, o))
            what = "%s of %s and %s" % (o, NAME[ka], NAME[kb])
            for p in w.client(o, [ra, rb], st):
                ck.oblig("R3-error")
                if p.ok is True:
                    fails(w, ck, f, "%s|%s%s" % (o, ka, kb), p.st, w.ptr(p.st, p.okval(), "R"), what)
    st, ra = w.make("F", w.eng.new_state(), [], [], "F")
    f = ck.fn(CLS["B"] + "::AddOffset")
    for p in w.client("AddOffset", [ra, w.eng.typed(("v", "k"), "long")], st):
        ck.oblig("R3-error")
        if p.ok is True:
            fails(w, ck, f, "AddOffset|F", p.st, w.ptr(p.st, p.okval(), "R"), "shifting a failing result")


def offsets(ck):
    w = W(ck)
    for kind in "BV":
        f = ck.fn(CLS[kind] + "::AddOffset")
        for n in range(4):
            order = [(i, None) for i in range(n)]
            st, a, _, sa, _ = setup(w, n, 0, order)
            k = w.eng.typed(("v", "offset"), "long")
            for x in a:
                st.facts.assume(ge(add(x, k), ZERO), True)
                st.facts.assume(le(add(x, k), c((1 << 63) - 1)), True)
            st, r = w.make(kind, st, a, sa, "A")
            what = "shifting %s" % NAME[kind]
            for p in w.client("AddOffset", [r, k], st):
                if ck.require(p.ok is True, "R3-error", f, None, "AddOffset|%s|spurious" % kind, what + " is refused", p):
                    q = w.ptr(p.st, p.okval(), "R")
                    observe(w, ck, f, "AddOffset|" + kind, p.st, q, [add(x, k) for x in a], sa if kind == "V" else None, what, label(order))
                    for y in w.client("Ids", [r], p.st.copy()):
                        ck.require(y.ok is True and same_list(y, vals(y, y.okval()), a), "R4-operands", f, None, "AddOffset|%s|operand" % kind, what + " changes it", p)


def ranges(ck):
    w = W(ck)
    f = ck.fn(G + "::ToRanges")
    top = 3 if ck.tier == "quick" else 4
    for kind in "BVP":
        for n in range(top + 1):
            order = [(i, None) for i in range(n)]
            st, a, _, sa, _ = setup(w, n, 0, order)
            st, r = w.make(kind, st, a, sa, "A")
            for p in w.client("ToRanges", [r], st):
                if not ck.require(p.ok is True, "R3-error", f, None, "ToRanges|spurious", "ranges of %d ids are refused" % n, p):
                    continue
                cs = cells_of(p, p.okval())
                if cs is None:
                    raise AnalysisBroken("ranges not understood: " + show(p.val))
                got = [tuple(p.eng.read(p.st, ("F", x[1], k), "long") for k in ("from", "to")) for x in cs]
                # split the path until every neighbourhood is decided
                todo = [p.st]
                while todo:
                    s = todo.pop()
                    und = [eq(add(a[i], ONE), a[i + 1]) for i in range(n - 1)]
                    und = [x for x in und if s.facts.truth(x) is None]
                    if und:
                        for tv in (True, False):
                            s2 = s.copy()
                            if s2.facts.assume(und[0], tv) is not False:
                                todo.append(s2)
                        continue
                    q = Path(p.eng, p.kind, s, p.val)
                    want = []
                    for i, x in enumerate(a):
                        if i and s.facts.truth(eq(add(a[i - 1], ONE), x)) is True:
                            want[-1] = (want[-1][0], x)
                        else:
                            want.append((x, x))
                    need([y for g in got for y in g], "ranges")
                    good = len(got) == len(want) and all(teq(q, g[0], e[0]) and teq(q, g[1], e[1]) for g, e in zip(got, want))
                    ck.require(good, "R5-ranges", f, None, "ToRanges|" + kind, "ranges of %d ids are %s" % (n, ["%s..%s" % (show(x), show(y)) for x, y in got]), q)
    f = ck.fn(CLS["B"] + "::FromRanges")
    for n in range(4):
        st = w.eng.new_state()
        rs = []
        cells = []
        for i in range(n):
            lo, hi = (w.eng.typed(("v", "%s%d" % (k, i)), "long") for k in ("from", "to"))
            st.facts.assume(ge(lo, ZERO), True)
            st.facts.assume(le(lo, hi), True)
            st.facts.assume(lt(hi, c((1 << 63) - 1)), True)
            l = ("T", "range:%d" % i, "paimon::Range")
            st.store[("F", l, "from")] = lo
            st.store[("F", l, "to")] = hi
            w.eng.celltype[l] = "paimon::Range"
            cells.append(("ref", l))
            rs.append((lo, hi))
        v = ("T", "ranges")
        st.store[v] = op("seq", *cells)
        p = w.one("MakeRanges", [("ref", v)], st)
        r = w.ptr(p.st, p.val, "R")
        for q in w.client("Bitmap", [r], p.st):
            if not ck.require(q.ok is True, "R3-error", f, None, "FromRanges|spurious", "reading ids of ranges fails", q):
                continue
            S = setof(q, loc_of(q.eng, q.okval()), "paimon::RoaringBitmap64")
            if S is None or not B.is_set(S) or not B.known(S):
                raise AnalysisBroken("set made from ranges not understood: %s" % (show(S) if S else None))
            x = w.eng.typed(("v", "x"), "long")
            facts = q.st.facts.copy()
            facts.assume(ge(x, ZERO), True)
            want = OR(*[AND(le(lo, x), le(x, hi)) for lo, hi in rs]) if rs else False
            ok, cex = valid(facts, IFF(B.member(S, x), want))
            ck.require(ok, "R5-ranges", f, None, "FromRanges|members", "the result of %d ranges holds other ids: %s" % (n, show(S)), [show(("ge0", y)) for y in cex.lins] if cex else None)


def once(ck):
    w = W(ck)
    f = ck.fn(CLS["B"] + "::GetBitmap")
    for n in range(3):
        st, a, _, _, _ = setup(w, n, 0, [(i, None) for i in range(n)])
        cnt = ("T", "count")
        st.store[cnt] = ZERO
        p = w.one("MakeCounted", [w.longs(st, a), ("addr", cnt)], st)
        r = w.ptr(p.st, p.val, "R")
        ck.require(p.read(cnt) == ZERO, "R6-once", f, None, "lazy", "row ids are computed before they are asked for", p)
        sts = [p.st]
        for o in ("Ids", "IsEmpty", "Bitmap", "ToRanges", "Ids"):
            nxt = []
            for s in sts:
                for q in w.client(o, [r], s.copy()):
                    ck.require(q.read(cnt) == ONE, "R6-once", f, None, "once", "the row ids were computed %s times after %s" % (show(q.read(cnt)), o), q)
                    nxt.append(q.st)
            sts = nxt
