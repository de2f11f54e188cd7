"""Row ranges behave as sets of integers.

Every range operation is interpreted abstractly with symbolic end points; for a
symbolic point x the facts of each path must decide membership of x in the
result exactly as the set operation says.  Lists are taken with up to three
(left/right: two) ranges of arbitrary mutual position."""
from dom import ONE, ZERO, add, c, ge, mk_eq0, not_, op, sub
from rules import AnalysisBroken, show
from specs import (AND, IFF, IMP, NOT, OR, THIS, cells_of, eq, feasible, field, le, loc_of, lt, params, show_facts, valid, value, vec)

PREFIXES = ["common/utils/range"]
MIN_OBLIGATIONS = 200
RULES = {
    "R1-point": "Count, Intersection, HasIntersection, ==, < of two ranges",
    "R2-merge": "SortAndMergeOverlap keeps exactly the points, sorted, disjoint, adjacent ranges joined only on request",
    "R3-and": "And of two sorted disjoint lists is the set intersection, sorted and disjoint",
    "R4-exclude": "Exclude removes exactly the excluded points",
    "R5-groups": "MergeOverlappingRanges partitions the input into the connected groups, each in input order; AreAllRangesSame is equality of all",
    "R6-bins": "ordered bin packing keeps every item, in order, in non-empty bins that exceed the target only for a single item",
}
R = "paimon::Range"
BIG = 1 << 60


class In:
    """a symbolic input range"""
    def __init__(self, eng, st, name):
        self.f = eng.typed(("v", name + ".from"), "long")
        self.t = eng.typed(("v", name + ".to"), "long")
        self.loc = ("D", ("v", "&" + name))
        st.store[("F", self.loc, "from")] = self.f
        st.store[("F", self.loc, "to")] = self.t
        st.facts.assume(le(self.f, self.t), True)
        st.facts.assume(ge(self.f, c(-BIG)), True)
        st.facts.assume(le(self.t, c(BIG)), True)
        self.ref = ("ref", self.loc)

    def has(self, x):
        return AND(le(self.f, x), le(x, self.t))


class Out:
    def __init__(self, p, ref):
        self.f = field(p, ref, "from", "long")
        self.t = field(p, ref, "to", "long")

    def has(self, x):
        return AND(le(self.f, x), le(x, self.t))


def hold(ck, rule, f, p, key, formula, msg):
    ck.oblig(rule)
    ok, g = valid(p.st.facts, formula)
    if not ok:
        ck.bad(rule, f, None, "%s|%s" % (f["fn"], key), msg, p.cond() if hasattr(p, "cond") and callable(p.cond) else show_facts(g))
    return ok


def outs(ck, rule, f, p, v=None):
    cs = cells_of(p, p.val if v is None else v)
    if cs is None:
        raise AnalysisBroken("%s: result list %s not understood" % (f["fn"], show(p.val)))
    return [Out(p, x) for x in cs]


def check(ck):
    pairwise(ck)
    for n in range(0, 4):
        for adj in (False, True):
            merge(ck, n, adj)
    for a in range(0, 3):
        for b in range(0, 3):
            and_(ck, a, b)
    for n in range(0, 4):
        exclude(ck, n)
    for n in range(0, 4):
        groups(ck, n)
    for n in range(0, 5):
        bins(ck, n)


def setup(ck, names, **kw):
    eng = ck.engine(seq=True, max_paths=20000, **kw)
    st = eng.new_state()
    return eng, st, [In(eng, st, n) for n in names]


def pairwise(ck):
    x = ("v", "x")
    f = ck.fn(R + "::Count", 0)
    eng, st, (a,) = setup(ck, ["a"])
    for p in ck.run(f, eng, this=a.loc, st=st):
        hold(ck, "R1-point", f, p, "count", eq(p.val, add(sub(a.t, a.f), ONE)), "Count() is %s" % show(p.val))
    f = ck.fn(R + "::Intersection", 2)
    eng, st, (a, b) = setup(ck, ["a", "b"])
    eng.typed(x, "long")
    for p in ck.run(f, eng, args=[a.ref, b.ref], st=st):
        v = p.val
        spec = AND(a.has(x), b.has(x))
        if v[0] == "none":
            hold(ck, "R1-point", f, p, "none", NOT(spec), "no intersection is reported for overlapping ranges")
        elif v[0] == "some":
            o = Out(p, v[1])
            hold(ck, "R1-point", f, p, "some", IFF(o.has(x), spec), "the intersection [%s, %s] is not the common part" % (show(o.f), show(o.t)))
            hold(ck, "R1-point", f, p, "valid", le(o.f, o.t), "an empty intersection is returned as a range")
        else:
            raise AnalysisBroken("%s returns %s" % (f["fn"], show(v)))
    f = ck.fn(R + "::HasIntersection", 2)
    eng, st, (a, b) = setup(ck, ["a", "b"])
    for p in ck.run(f, eng, args=[a.ref, b.ref], st=st):
        hold(ck, "R1-point", f, p, "has", IFF(p.val, AND(le(a.f, b.t), le(b.f, a.t))), "HasIntersection() is %s" % show(p.val))
    f = ck.fn(R + "::operator==", 1)
    eng, st, (a, b) = setup(ck, ["a", "b"])
    for p in ck.run(f, eng, this=a.loc, args=[b.ref], st=st):
        if any(t for at, t in p.st.facts.atoms.items() if at[0] == "op" and at[1] == "=="):
            hold(ck, "R1-point", f, p, "self", p.val, "a range differs from itself")
            continue
        hold(ck, "R1-point", f, p, "eq", IFF(p.val, AND(eq(a.f, b.f), eq(a.t, b.t))), "operator== is %s" % show(p.val))
    f = ck.fn(R + "::operator<", 1)
    eng, st, (a, b) = setup(ck, ["a", "b"])
    for p in ck.run(f, eng, this=a.loc, args=[b.ref], st=st):
        hold(ck, "R1-point", f, p, "lt", IFF(p.val, OR(lt(a.f, b.f), AND(eq(a.f, b.f), lt(a.t, b.t)))), "operator< is %s" % show(p.val))


def disjoint(ck, rule, f, p, rs, gap=0):
    for i in range(len(rs) - 1):
        hold(ck, rule, f, p, "sorted", lt(add(rs[i].t, c(gap)), rs[i + 1].f), "result ranges %d and %d are not sorted and %s" % (i, i + 1, "separated" if gap else "disjoint"))
    for r in rs:
        hold(ck, rule, f, p, "valid", le(r.f, r.t), "the result contains an empty range")


def merge(ck, n, adj):
    f = ck.fn(R + "::SortAndMergeOverlap", 2)
    eng, st, ins = setup(ck, ["r%d" % i for i in range(n)])
    x = eng.typed(("v", "x"), "long")
    st.facts.assume(le(x, c(BIG)), True)
    st.facts.assume(ge(x, c(-BIG)), True)
    loc = ("D", ("v", "&ranges"))
    arg = vec(eng, st, loc, [i.ref for i in ins], R)
    for p in ck.run(f, eng, args=[arg, c(adj)], st=st):
        rs = outs(ck, "R2-merge", f, p)
        k = "n=%d adjacent=%s" % (n, adj)
        hold(ck, "R2-merge", f, p, k + " points", IFF(OR(*[r.has(x) for r in rs]), OR(*[i.has(x) for i in ins])), "merging %d ranges gains or loses points" % n)
        disjoint(ck, "R2-merge", f, p, rs, 1 if adj else 0)
        if not adj:
            y = add(x, ONE)
            hold(ck, "R2-merge", f, p, k + " join", IMP(OR(*[AND(r.has(x), r.has(y)) for r in rs]), OR(*[AND(i.has(x), i.has(y)) for i in ins])),
                 "ranges that only touch are joined although adjacency was not requested")


def and_(ck, na, nb):
    f = ck.fn(R + "::And", 2)
    eng, st, ins = setup(ck, ["l%d" % i for i in range(na)] + ["r%d" % i for i in range(nb)])
    L, Rr = ins[:na], ins[na:]
    for lst in (L, Rr):
        for i in range(len(lst) - 1):
            st.facts.assume(lt(lst[i].t, lst[i + 1].f), True)
    x = eng.typed(("v", "x"), "long")
    a = vec(eng, st, ("D", ("v", "&left")), [i.ref for i in L], R)
    b = vec(eng, st, ("D", ("v", "&right")), [i.ref for i in Rr], R)
    for p in ck.run(f, eng, args=[a, b], st=st):
        rs = outs(ck, "R3-and", f, p)
        k = "%dx%d" % (na, nb)
        hold(ck, "R3-and", f, p, k + " points", IFF(OR(*[r.has(x) for r in rs]), AND(OR(*[i.has(x) for i in L]), OR(*[i.has(x) for i in Rr]))),
             "the intersection of %d and %d ranges gains or loses points" % (na, nb))
        disjoint(ck, "R3-and", f, p, rs)


def exclude(ck, n):
    f = ck.fn(R + "::Exclude", 1)
    eng, st, ins = setup(ck, ["this"] + ["e%d" % i for i in range(n)])
    me, ex = ins[0], ins[1:]
    x = eng.typed(("v", "x"), "long")
    a = vec(eng, st, ("D", ("v", "&ranges")), [i.ref for i in ex], R)
    for p in ck.run(f, eng, this=me.loc, args=[a], st=st):
        rs = outs(ck, "R4-exclude", f, p)
        hold(ck, "R4-exclude", f, p, "n=%d points" % n, IFF(OR(*[r.has(x) for r in rs]), AND(me.has(x), *[NOT(i.has(x)) for i in ex])),
             "excluding %d ranges gains or loses points" % n)
        disjoint(ck, "R4-exclude", f, p, rs)


# ---------------------------------------------------------------- grouping
def ctor_with(ck, eng, st, cls, vals):
    """construct an object of the class from the given argument values"""
    f = ck.fn("%s::%s" % (cls, cls.split("::")[-1]), len(vals), pick=lambda x: x.get("fk") == "ctor" and not x.get("copy") and not x.get("move"))
    loc = eng.temp(cls)
    out = []
    for p in ck.run(f, eng, this=loc, args=vals, st=st):
        out.append((p.st, loc))
    return f, out


def groups(ck, n):
    H = "paimon::RangeHelper"
    item = "paimon::InstItem"
    starts, ends = {}, {}
    m = ck.fn(H + "::MergeOverlappingRanges", 1)
    same = ck.fn(H + "::AreAllRangesSame", 1)
    eng, st, _ = setup(ck, [])
    its = []
    for i in range(n):
        l = ("D", ("v", "&item%d" % i))
        w = c(i)
        st.store[("F", l, "weight")] = w
        s_, e_ = eng.typed(("v", "s%d" % i), "long"), eng.typed(("v", "e%d" % i), "long")
        starts[w], ends[w] = s_, e_
        st.facts.assume(le(s_, e_), True)
        its.append(("ref", l))
    this = ("D", ("v", "this"))

    # the helper is built by its public constructor from two opaque functions
    ctor = ck.fn(H + "::RangeHelper", 2)
    sv, ev_ = op("fn", ("s", "start")), op("fn", ("s", "end"))
    ps = ck.run(ctor, eng, this=this, args=[sv, ev_], st=st)
    if len(ps) != 1:
        raise AnalysisBroken("RangeHelper constructor")
    st = ps[0].st

    def call(eng, e, s, fr):
        out = []
        for s1, l in eng.lv(e["obj"], s, fr):
            v = eng.read(s1, l, None)
            if v not in (sv, ev_):
                return NotImplemented
            for s2, vs in eng.ev_args(None, e, e.get("a") or [], s1, fr):
                w = eng.read(s2, ("F", loc_of(eng, vs[0]), "weight"), "long")
                tbl = starts if v == sv else ends
                if w not in tbl:
                    raise AnalysisBroken("range function applied to an unknown item")
                out.append((s2, ("okv", tbl[w])))
        return out
    eng.handlers["std::function::operator()"] = call
    arg = vec(eng, st, ("D", ("v", "&ranges")), its, item)
    st2 = st.copy()
    for p in ck.run(m, eng, this=this, args=[arg], st=st):
        if p.ok is not True:
            ck.oblig("R5-groups")
            ck.bad("R5-groups", m, None, m["fn"] + "|error", "grouping fails without a failing range function", p.cond())
            continue
        gs = []
        for g in cells_of(p, p.okval()):
            xs = cells_of(p, p.eng.read(p.st, g[1], None) if g[0] == "ref" else g)
            if xs is None:
                raise AnalysisBroken("group list not understood")
            gs.append([field(p, x, "weight", "long")[1] for x in xs])
        key = "n=%d" % n
        flat = sorted(x for g in gs for x in g)
        ck.require(flat == list(range(n)), "R5-groups", m, None, m["fn"] + "|all " + key, "items %s of %d come out of the grouping" % (flat, n), p)
        if flat != list(range(n)):
            continue
        ck.require(all(g == sorted(g) and g for g in gs), "R5-groups", m, None, m["fn"] + "|order " + key, "groups %s do not keep the input order" % gs, p)
        S = lambda i: starts[c(i)]
        E = lambda i: ends[c(i)]
        over = lambda i, j: AND(le(S(i), E(j)), le(S(j), E(i)))
        for a in range(len(gs)):
            for b in range(a + 1, len(gs)):
                for i in gs[a]:
                    for j in gs[b]:
                        hold(ck, "R5-groups", m, p, "separate " + key, lt(E(i), S(j)), "overlapping items %d and %d are in different groups, or groups are unordered" % (i, j))
        for g in gs:
            if len(g) == 2:
                hold(ck, "R5-groups", m, p, "connected " + key, over(*g), "items %s are grouped without overlapping" % g)
            elif len(g) == 3:
                i, j, k = g
                hold(ck, "R5-groups", m, p, "connected " + key, OR(AND(over(i, j), over(j, k)), AND(over(i, k), over(k, j)), AND(over(j, i), over(i, k))), "items %s are grouped without being connected" % g)
    for p in ck.run(same, eng, this=this, args=[("ref", ("D", ("v", "&ranges")))], st=st2):
        if p.ok is not True:
            ck.oblig("R5-groups")
            ck.bad("R5-groups", same, None, same["fn"] + "|error", "the comparison fails without a failing range function", p.cond())
            continue
        hold(ck, "R5-groups", same, p, "same n=%d" % n, IFF(p.okval(), AND(*[AND(eq(starts[c(0)], starts[c(i)]), eq(ends[c(0)], ends[c(i)])) for i in range(1, n)])),
             "AreAllRangesSame() is %s" % show(p.okval()))


def bins(ck, n):
    f = ck.fn("paimon::BinPacking::PackForOrdered", 3, pick=lambda x: "InstItem" in str(x.get("params")))
    eng, st, _ = setup(ck, [])
    item = "paimon::InstItem"
    ws = [eng.typed(("v", "w%d" % i), "long") for i in range(n)]
    its = []
    ids = {}
    for i, w in enumerate(ws):
        l = ("D", ("v", "&item%d" % i))
        st.store[("F", l, "weight")] = w
        st.facts.assume(ge(w, ZERO), True)
        st.facts.assume(le(w, c(BIG)), True)
        its.append(("ref", l))
        ids[w] = i
    T = eng.typed(("v", "target"), "long")
    st.facts.assume(ge(T, ZERO), True)
    fv = op("fn", ("s", "weight"))

    def call(eng, e, s, fr):
        out = []
        for s2, vs in eng.ev_args(None, e, e.get("a") or [], s, fr):
            out.append((s2, eng.read(s2, ("F", loc_of(eng, vs[0]), "weight"), "long")))
        return out
    eng.handlers["std::function::operator()"] = call
    arg = vec(eng, st, ("D", ("v", "&items")), its, item)
    fl = ("D", ("v", "&weight_func"))
    st.store[fl] = fv
    for p in ck.run(f, eng, args=[arg, ("ref", fl), T], st=st):
        gs = []
        cs = cells_of(p, p.val)
        if cs is None:
            raise AnalysisBroken("bins not understood: %s" % show(p.val))
        for g in cs:
            xs = cells_of(p, p.eng.read(p.st, g[1], None))
            if xs is None:
                raise AnalysisBroken("bin not understood")
            gs.append([ids[field(p, x, "weight", "long")] for x in xs])
        flat = [x for g in gs for x in g]
        k = "n=%d" % n
        ck.require(flat == list(range(n)), "R6-bins", f, None, f["fn"] + "|all " + k, "packing %d items yields %s" % (n, gs), p)
        ck.require(all(gs), "R6-bins", f, None, f["fn"] + "|empty " + k, "packing %d items yields an empty bin: %s" % (n, gs), p)
        for a, g in enumerate(gs):
            tot = ZERO
            for i in g:
                tot = add(tot, ws[i])
            if len(g) > 1:
                hold(ck, "R6-bins", f, p, "fits " + k, le(tot, T), "bin %s exceeds the target weight" % g)
            if a + 1 < len(gs):
                hold(ck, "R6-bins", f, p, "full " + k, lt(T, add(tot, ws[gs[a + 1][0]])), "bin %s is closed although item %d still fits" % (g, gs[a + 1][0]))
