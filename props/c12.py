"""Roaring bitmap wrappers are sets of non-negative integers.

Each operation of the 32- and 64-bit bitmap is interpreted on unknown sets A and B; the result is a set term over
the documented operations of the underlying library, and for an arbitrary
point x the membership formula of the result must be equivalent to the one the operation promises.
Copies, moves and destruction are analysed as ownership of heap objects."""
import bitmap as B
import seq
from dom import NULL, ONE, ZERO, add, c, ge, mk_eq0, mk_ge0, op, sub
from rules import AnalysisBroken, Path, show, teq
from specs import AND, IFF, NOT, OR, constref, valid, vec

PREFIXES = ["common/utils/roaring_bitmap", "common/io/byte_array_input"]
MIN_OBLIGATIONS = 200
RULES = {
    "R1-member": "the resulting set contains exactly the promised points",
    "R2-unchanged": "operands that are not written keep their points and own a set of their own",
    "R3-answer": "queries answer about the set they are asked on",
    "R4-own": "every bitmap and iterator owns its heap object: none shared, none lost, none used after deletion, each deleted once",
    "R5-iterate": "iteration visits the elements in ascending order, each once, from the first element not below the start",
    "R6-bytes": "serialising allocates and writes the bytes of one representation; reading takes the bytes at the stream position and moves it by what was read",
}


class World:
    def __init__(self, ck, w):
        self.ck = ck
        self.w = w
        self.cls = "paimon::RoaringBitmap%d" % w
        self.it = "int" if w == 32 else "long"
        self.eng = ck.engine(seq=True, max_depth=20, handlers=B.HANDLERS)
        self.eng.join = False
        self.st = self.eng.new_state()
        self.owned = {}

    def obj(self, name, S=None, cls=None, empty=False):
        """a bitmap built by its default constructor, holding the set S"""
        cls = cls or self.cls
        l = ("T", "obj:" + name, cls)
        f = self.ck.fn(cls + "::" + cls.rsplit("::", 1)[1], 0)
        self.eng.default_fields(self.st, l, cls, None)
        ps = self.ck.run(f, self.eng, this=l, args=[], st=self.st)
        if len(ps) != 1:
            raise AnalysisBroken("default construction has %d paths" % len(ps))
        self.st = ps[0].st
        h = heap_of(self.eng, self.st, l)
        if h is None:
            raise AnalysisBroken("the set behind a bitmap is not found")
        if S is not None:
            self.st.store[h] = S
        self.owned[name] = h
        return l

    def num(self, name, lo=0):
        v = self.eng.typed(("v", name), self.it)
        self.st.facts.assume(ge(v, c(lo)), True)
        return v


def rec_fields(eng, l, cls):
    r = eng.prog.records.get(cls)
    if r is None:
        raise AnalysisBroken("anchor class %s is gone" % cls)
    return r["fields"]


def heap_of(eng, st, l, cls=None):
    """location of the library object an owner holds; None when it holds none"""
    cls = cls or l[2]
    for f in rec_fields(eng, l, cls):
        v = eng.read(st, ("F", l, f["n"]), f["t"])
        if v is not None and v[0] == "addr":
            return v[1]
        if v != NULL and f["t"].rstrip().endswith("*"):
            raise AnalysisBroken("heap object of %s not understood: %s" % (cls, show(v)))
    return None


def setof(p, l, cls=None):
    h = heap_of(p.eng, p.st, l, cls)
    return None if h is None else B.norm(p.eng.read(p.st, h, None))


def res_loc(p, v):
    if v is not None and v[0] == "okv":
        v = v[1]
    if v is not None and v[0] in ("ref", "addr"):
        return v[1]
    raise AnalysisBroken("result object not understood: " + show(v))


def decided(S, what):
    if S is None or not B.is_set(S) or has_unknown(S):
        raise AnalysisBroken("%s: the set is not understood: %s" % (what, show(S) if S is not None else None))


def has_unknown(S):
    return S[0] == "op" and any(isinstance(x, tuple) and x and x[0] == "op" and str(x[1]).startswith(("call", "bad")) for x in S[2:])


def same_set(ck, rule, f, p, key, S, want, what):
    """for every x: x in S iff want(x)"""
    if S is None:
        ck.oblig(rule)
        ck.bad(rule, f, None, "%s|%s" % (f["fn"], key), "%s holds no set" % what, p)
        return
    decided(S, f["fn"])
    g = p.eng.typed(("v", "x"), "long")
    ck.oblig(rule)
    # points the path has asked about, and any other point
    pts = [a[3] for a in p.st.facts.atoms if a[0] == "op" and a[1] == "has" and a[2] in (A, Bs)]
    for x in [g] + sorted(set(pts), key=repr):
        facts = p.st.facts.copy()
        facts.assume(mk_ge0(x), True)
        if x is g:
            for y in pts:
                facts.assume(mk_eq0(sub(x, y)), False)
        ok, cex = valid(facts, IFF(B.member(S, x), want(x)))
        if not ok:
            break
    if not ok:
        lines = [show(("ge0", q)) for q in cex.lins] + ["%s%s" % ("" if t else "not ", show(a)) for a, t in cex.atoms.items()]
        ck.bad(rule, f, None, "%s|%s" % (f["fn"], key), "%s: the set is %s" % (what, show(S)), lines)


def own(ck, f, p, key, objs, before=()):
    """objs: owners alive after the operation"""
    n = "%s|%s" % (f["fn"], key)
    heaps = [h for h in (heap_of(p.eng, p.st, l) for l in objs) if h is not None]
    dead = [e.obj[1] for e in p.events("delete") if e.obj is not None and e.obj[0] == "addr"]
    ck.require(len(set(heaps)) == len(heaps), "R4-own", f, None, n + " shared", "two objects own the same heap object (deleted twice)", p)
    ck.require(not set(heaps) & set(dead), "R4-own", f, None, n + " dangling", "an object keeps a heap object that was deleted", p)
    ck.require(len(set(dead)) == len(dead), "R4-own", f, None, n + " twice", "a heap object is deleted twice", p)
    # pointer variables of finished calls hold nothing
    held = {l for k, v in p.st.store.items() if k[0] != "V" for l in addrs(v)}
    lost = [h for h in before if h not in held and h not in dead]
    ck.require(not lost, "R4-own", f, None, n + " lost", "a heap object is neither owned nor deleted after the operation", p)
    uses = p.events("use-after-delete", "null-use")
    ck.require(not uses, "R4-own", f, uses[0].line if uses else None, n + " use", "a deleted or absent heap object is used", p)


def addrs(v, d=0):
    if isinstance(v, tuple) and d < 6:
        if len(v) == 2 and v[0] == "addr":
            yield v[1]
        else:
            for x in v:
                yield from addrs(x, d + 1)


def check(ck):
    for w in (32, 64):
        basics(ck, w)
        algebra(ck, w)
        queries(ck, w)
        lifetime(ck, w)
        iterate(ck, w)
        serial(ck, w)
    widen(ck)


A, Bs = ("v", "set:A"), ("v", "set:B")


def hasA(x):
    return B.member(A, x)


def hasB(x):
    return B.member(Bs, x)


def basics(ck, w):
    W = World(ck, w)
    f = ck.fn(W.cls + "::" + W.cls[8:], 0)
    l = W.obj("a")
    same_set(ck, "R1-member", f, Path(W.eng, "return", W.st, None), "new", setof(Path(W.eng, "", W.st, None), l), lambda x: False, "a new bitmap is not empty")
    f = ck.fn(W.cls + "::Add", 1)
    W = World(ck, w)
    l, y = W.obj("a", A), W.num("y")
    for p in ck.run(f, W.eng, this=l, args=[y], st=W.st):
        same_set(ck, "R1-member", f, p, "add", setof(p, l), lambda x: OR(hasA(x), mk_eq0(sub(x, y))), "after adding y")
        own(ck, f, p, "add", [l], W.owned.values())
    f = ck.fn(W.cls + "::CheckedAdd", 1)
    W = World(ck, w)
    l, y = W.obj("a", A), W.num("y")
    for p in ck.run(f, W.eng, this=l, args=[y], st=W.st):
        same_set(ck, "R1-member", f, p, "cadd", setof(p, l), lambda x: OR(hasA(x), mk_eq0(sub(x, y))), "after adding y")
        answer(ck, f, p, "cadd", NOT(hasA(y)), "the answer of a checked add")
    for name, want in (("AddRange", lambda x, r: OR(hasA(x), r)), ("RemoveRange", lambda x, r: AND(hasA(x), NOT(r))),
                       ("Flip", lambda x, r: OR(AND(hasA(x), NOT(r)), AND(NOT(hasA(x)), r)))):
        f = ck.fn(W.cls + "::" + name, 2)
        W = World(ck, w)
        l, lo, hi = W.obj("a", A), W.num("lo"), W.num("hi")
        W.st.facts.assume(ge(hi, lo), True)
        for p in ck.run(f, W.eng, this=l, args=[lo, hi], st=W.st):
            same_set(ck, "R1-member", f, p, name, setof(p, l), lambda x: want(x, B.in_range(x, lo, hi)), "%s of [lo, hi)" % name)
            own(ck, f, p, name, [l], W.owned.values())


def answer(ck, f, p, key, want, what):
    v = p.val
    if v is not None and v[0] == "ref":
        v = p.eng.read(p.st, v[1], None)
    if v[0] == "c":
        g = bool(v[1])
    elif p.eng.is_boolish(v):
        g = v
    else:
        raise AnalysisBroken("%s: answer not understood: %s" % (f["fn"], show(v)))
    ok, cex = valid(p.st.facts, IFF(g, want))
    ck.require(ok, "R3-answer", f, None, "%s|%s" % (f["fn"], key), "%s is %s" % (what, show(v)), p)


def algebra(ck, w):
    for name, want in (("And", lambda x: AND(hasA(x), hasB(x))), ("Or", lambda x: OR(hasA(x), hasB(x))), ("AndNot", lambda x: AND(hasA(x), NOT(hasB(x))))):
        for alias in (False, True):
            W = World(ck, w)
            a = W.obj("a", A)
            b = a if alias else W.obj("b", Bs)
            f = ck.fn(W.cls + "::" + name, 2)
            for p in ck.run(f, W.eng, args=[("ref", a), ("ref", b)], st=W.st):
                r = res_loc(p, p.val)
                rc = r if len(r) > 2 and r[0] == "T" else None
                wa = want if not alias else (lambda x: hasA(x) if name != "AndNot" else False)
                same_set(ck, "R1-member", f, p, "%s" % name, setof(p, r, W.cls), wa, "%s of two bitmaps" % name)
                unchanged(ck, f, p, name, a, A, b if not alias else None)
                ck.require(heap_of(p.eng, p.st, r, W.cls) not in (heap_of(p.eng, p.st, a), heap_of(p.eng, p.st, b)), "R4-own", f, None, f["fn"] + "|shared",
                           "the result shares its heap object with an operand", p)
    for name, want in (("operator|=", lambda x: OR(hasA(x), hasB(x))), ("operator&=", lambda x: AND(hasA(x), hasB(x))), ("operator-=", lambda x: AND(hasA(x), NOT(hasB(x))))):
        for alias in (False, True):
            W = World(ck, w)
            a = W.obj("a", A)
            b = a if alias else W.obj("b", Bs)
            f = ck.fn(W.cls + "::" + name, 1)
            for p in ck.run(f, W.eng, this=a, args=[("ref", b)], st=W.st):
                wa = want if not alias else (lambda x: hasA(x) if name != "operator-=" else False)
                same_set(ck, "R1-member", f, p, name, setof(p, a), wa, "%s" % name)
                ck.require(p.val == ("ref", a), "R3-answer", f, None, f["fn"] + "|self", "the assignment does not return its left side", p)
                if not alias:
                    same_set(ck, "R2-unchanged", f, p, name + " operand", setof(p, b), hasB, "the right operand")
                own(ck, f, p, name, [a] if alias else [a, b], W.owned.values())
    # construction from values and unions
    for n in range(4):
        W = World(ck, w)
        f = ck.fn(W.cls + "::From", 1)
        xs = [W.num("e%d" % i) for i in range(n)]
        vl = ("T", "obj:vals")
        r = vec(W.eng, W.st, vl, xs, W.it)
        for p in ck.run(f, W.eng, args=[r], st=W.st):
            same_set(ck, "R1-member", f, p, "from", setof(p, res_loc(p, p.val), W.cls), lambda x: OR(False, *[mk_eq0(sub(x, e)) for e in xs]), "a bitmap made from %d values" % n)
    fs = ck.fn("paimon::RoaringBitmap%d::FastUnion" % w, 1, many=True)
    for f in fs:
        for n in range(4):
            W = World(ck, w)
            objs = [W.obj("u%d" % i, ("v", "set:U%d" % i)) for i in range(n)]
            vl = ("T", "obj:vec")
            ptr = "*" in f["params"][0]["t"]
            r = vec(W.eng, W.st, vl, [("addr", o) if ptr else ("ref", o) for o in objs], W.cls + (" *" if ptr else ""))
            for p in ck.run(f, W.eng, args=[r], st=W.st):
                same_set(ck, "R1-member", f, p, "union", setof(p, res_loc(p, p.val), W.cls), lambda x: OR(False, *[op("has", ("v", "set:U%d" % i), x) for i in range(n)]), "the union of %d bitmaps" % n)


def unchanged(ck, f, p, key, a, S, b):
    same_set(ck, "R2-unchanged", f, p, key + " left", setof(p, a), hasA, "the left operand")
    if b is not None:
        same_set(ck, "R2-unchanged", f, p, key + " right", setof(p, b), hasB, "the right operand")


def queries(ck, w):
    W = World(ck, w)
    f = ck.fn(W.cls + "::Contains", 1)
    l, y = W.obj("a", A), W.num("y")
    for p in ck.run(f, W.eng, this=l, args=[y], st=W.st):
        answer(ck, f, p, "contains", hasA(y), "Contains(y)")
        same_set(ck, "R2-unchanged", f, p, "contains", setof(p, l), hasA, "the set")
    W = World(ck, w)
    l = W.obj("a", A)
    f = ck.fn(W.cls + "::IsEmpty", 0)
    n = B.card(W.eng, W.st, A)
    for p in ck.run(f, W.eng, this=l, args=[], st=W.st.copy()):
        answer(ck, f, p, "empty", mk_eq0(n), "IsEmpty()")
    f = ck.fn(W.cls + "::Cardinality", 0)
    for p in ck.run(f, W.eng, this=l, args=[], st=W.st.copy()):
        ck.require(teq(p, p.val, n), "R3-answer", f, None, f["fn"] + "|card", "Cardinality() is %s" % show(p.val), p)
    f = ck.fn(W.cls + "::GetSizeInBytes", 0)
    for p in ck.run(f, W.eng, this=l, args=[], st=W.st.copy()):
        ck.require(teq(p, p.val, B.size_term(W.eng, p.st, A)), "R3-answer", f, None, f["fn"] + "|size", "GetSizeInBytes() is %s" % show(p.val), p)
    f = ck.fn(W.cls + "::ToString", 0)
    for p in ck.run(f, W.eng, this=l, args=[], st=W.st.copy()):
        ck.require(p.val == op("S:text", A), "R3-answer", f, None, f["fn"] + "|text", "ToString() is %s" % show(p.val), p)
    # equality
    f = ck.fn(W.cls + "::operator==", 1)
    for same in (False, True):
        W = World(ck, w)
        a = W.obj("a", A)
        b = W.obj("b", Bs) if not same else a
        for p in ck.run(f, W.eng, this=a, args=[("ref", b)], st=W.st):
            answer(ck, f, p, "equal", True if same else op("Seq", *sorted((A, Bs), key=repr)), "equality of two bitmaps")
            own(ck, f, p, "equal", [a] if same else [a, b], W.owned.values())
    W = World(ck, w)
    a, b = W.obj("a", A), W.obj("b", A)
    for p in ck.run(f, W.eng, this=a, args=[("ref", b)], st=W.st):
        answer(ck, f, p, "equal sets", True, "equality of bitmaps with the same set")


def lifetime(ck, w):
    cls = "paimon::RoaringBitmap%d" % w
    short = cls[8:]

    def by(f, kind):
        t = f["params"][0]["t"].replace(" ", "")
        return (t.endswith("&&") if kind == "move" else t.endswith("&") and not t.endswith("&&")) and short + "&" in t
    for kind in ("copy", "move"):
        ctor = ck.fn(cls + "::" + short, 1, pick=lambda f: by(f, kind))
        W = World(ck, w)
        b = W.obj("b", Bs)
        a = ("T", "obj:a", cls)
        W.eng.default_fields(W.st, a, cls, None)
        for p in ck.run(ctor, W.eng, this=a, args=[("ref", b)], st=W.st):
            same_set(ck, "R1-member", ctor, p, kind, setof(p, a), hasB, "a bitmap made by %s" % kind)
            if kind == "copy":
                same_set(ck, "R2-unchanged", ctor, p, kind + " source", setof(p, b), hasB, "the source of a copy")
            own(ck, ctor, p, kind, [a, b], W.owned.values())
            destroy(ck, p, cls, [a, b], kind + " construction")
        asg = ck.fn(cls + "::operator=", 1, pick=lambda f: by(f, kind))
        for case in ("full", "moved", "self", "moved-both"):
            W = World(ck, w)
            b = W.obj("b", Bs)
            if case == "self":
                a = b
            elif case == "moved":
                a = ("T", "obj:a", cls)
                W.eng.default_fields(W.st, a, cls, None)
            elif case == "moved-both":
                if kind == "copy":
                    continue
                a = W.obj("a", A)
                t = ("T", "obj:t", cls)
                W.eng.default_fields(W.st, t, cls, None)
                mc = ck.fn(cls + "::" + short, 1, pick=lambda f: by(f, "move"))
                W.st = ck.run(mc, W.eng, this=t, args=[("ref", b)], st=W.st)[0].st
            else:
                a = W.obj("a", A)
            for p in ck.run(asg, W.eng, this=a, args=[("ref", b)], st=W.st):
                if case != "moved-both":
                    same_set(ck, "R1-member", asg, p, "%s %s" % (kind, case), setof(p, a), hasB, "a bitmap after %s assignment (%s)" % (kind, case))
                if kind == "copy" or case == "self":
                    same_set(ck, "R2-unchanged", asg, p, "%s %s source" % (kind, case), setof(p, b), hasB, "the source of an assignment")
                ck.require(p.val == ("ref", a), "R3-answer", asg, None, "%s|%s self" % (asg["fn"], kind), "the assignment does not return its left side", p)
                objs = [a] if a == b else [a, b]
                own(ck, asg, p, "%s %s" % (kind, case), objs, W.owned.values())
                destroy(ck, p, cls, objs, "%s assignment (%s)" % (kind, case))
    # iterators own their position
    icls = cls + "::Iterator"
    for kind in ("copy", "move"):
        def by2(f):
            t = f["params"][0]["t"].replace(" ", "")
            return (t.endswith("&&") if kind == "move" else t.endswith("&") and not t.endswith("&&")) and "Iterator&" in t
        ctor = ck.fn(icls + "::Iterator", 1, pick=by2)
        asg = ck.fn(icls + "::operator=", 1, pick=by2)
        for case in ("ctor", "full", "moved", "self"):
            W = World(ck, w)
            bm = W.obj("bm", A)
            b = mkiter(ck, W, bm, "b")
            f = ctor if case == "ctor" else asg
            if case == "self":
                a = b
            elif case == "full":
                a = mkiter(ck, W, bm, "a")
                adv = ck.fn(icls + "::operator++", 0)
                W.st = ck.run(adv, W.eng, this=a, args=[], st=W.st)[0].st
            else:
                a = ("T", "obj:a", icls)
                W.eng.default_fields(W.st, a, icls, None)
            hb, ha = heap_of(W.eng, W.st, b), heap_of(W.eng, W.st, a)
            want = W.eng.read(W.st, hb, None)
            for p in ck.run(f, W.eng, this=a, args=[("ref", b)], st=W.st):
                h = heap_of(p.eng, p.st, a)
                got = None if h is None else p.eng.read(p.st, h, None)
                ck.require(got == want, "R5-iterate", f, None, "%s|%s %s" % (f["fn"], kind, case), "an iterator after %s (%s) stands at %s instead of %s" % (kind, case, show(got) if got else None, show(want)), p)
                objs = [a] if a == b else [a, b]
                own(ck, f, p, "%s %s" % (kind, case), objs, [h for h in (ha, hb) if h])
                destroy(ck, p, icls, objs, "%s of an iterator (%s)" % (kind, case))


def mkiter(ck, W, bm, name):
    icls = W.cls + "::Iterator"
    l = ("T", "obj:" + name, icls)
    W.eng.default_fields(W.st, l, icls, None)
    f = ck.fn(icls + "::Iterator", 1, pick=lambda f: "Iterator" not in f["params"][0]["t"])
    ps = ck.run(f, W.eng, this=l, args=[("ref", bm)], st=W.st)
    if len(ps) != 1:
        raise AnalysisBroken("building an iterator has %d paths" % len(ps))
    W.st = ps[0].st
    return l


def destroy(ck, p, cls, objs, what):
    """destroying the owners deletes every heap object once"""
    f = ck.fn(cls + "::~" + cls.rsplit("::", 1)[1], 0)
    paths = [p]
    for l in objs:
        nxt = []
        for q in paths:
            nxt += ck.run(f, q.eng, this=l, args=[], st=q.st.copy())
        paths = nxt
    for q in paths:
        heaps = [h for h in (heap_of(p.eng, p.st, l) for l in objs) if h is not None]
        dead = [e.obj[1] for e in q.events("delete") if e.obj is not None and e.obj[0] == "addr"]
        left = [h for h in heaps if h not in dead]
        ck.require(not left, "R4-own", f, None, f["fn"] + "|leak", "after %s destroying the objects does not free their heap objects" % what, q)
        ck.require(len(set(dead)) == len(dead), "R4-own", f, None, f["fn"] + "|twice", "after %s destroying the objects frees a heap object twice" % what, q)


def run1(ck, f, W_eng, st, this, args):
    return ck.run(f, W_eng, this=this, args=args, st=st.copy())


def walk(ck, W, p, it, end, n):
    """values the iterator yields until it equals end, at most n+1"""
    icls = W.cls + "::Iterator"
    eqf, der, adv = ck.fn(icls + "::operator==", 1), ck.fn(icls + "::operator*", 0), ck.fn(icls + "::operator++", 0)
    nef = ck.fn(icls + "::operator!=", 1)
    work = [(p, [])]
    done = []
    while work:
        q, vals = work.pop()
        for r in ck.run(eqf, q.eng, this=it, args=[("ref", end)], st=q.st.copy()):
            for r2 in ck.run(nef, r.eng, this=it, args=[("ref", end)], st=r.st.copy()):
                a, b = truth(r), truth(r2)
                if a is None or b is None:
                    raise AnalysisBroken("iterator comparison not decided: %s" % show(r.val))
                ck.require(a != b, "R5-iterate", nef, None, nef["fn"] + "|not", "!= is not the negation of ==", r2)
            if truth(r):
                done.append((r, vals))
                continue
            if len(vals) > n:
                done.append((r, vals + ["..."]))
                continue
            for d in ck.run(der, r.eng, this=it, args=[], st=r.st.copy()):
                for g in ck.run(adv, d.eng, this=it, args=[], st=d.st.copy()):
                    ck.require(g.val == ("ref", it), "R5-iterate", adv, None, adv["fn"] + "|self", "++ does not return the iterator", g)
                    work.append((g, vals + [d.val]))
    return done


def truth(p):
    v = p.val
    if v[0] == "c":
        return bool(v[1])
    return p.st.facts.truth(v)


def own_obj(p, v, cls):
    l = res_loc(p, v)
    return l


def iterate(ck, w):
    cls = "paimon::RoaringBitmap%d" % w
    for n in range(4):
        for mode in ("Begin", "EqualOrLarger"):
            W = World(ck, w)
            es = [W.num("e%d" % i) for i in range(n)]
            for a, b in zip(es, es[1:]):
                W.st.facts.assume(mk_ge0(sub(sub(b, a), ONE)), True)
            l = W.obj("a", op("Sl", *es))
            f = ck.fn(cls + "::" + mode, 0 if mode == "Begin" else 1)
            k = W.num("k") if mode != "Begin" else None
            endf = ck.fn(cls + "::End", 0)
            for p in ck.run(f, W.eng, this=l, args=[k] if k else [], st=W.st):
                it = res_loc(p, p.val)
                for q in ck.run(ck.fn(cls + "::Iterator::operator==", 1), p.eng, this=it, args=[("ref", it)], st=p.st.copy()):
                    ck.require(truth(q) is True, "R5-iterate", f, None, f["fn"] + "|reflexive", "an iterator differs from itself", q)
                for q in ck.run(endf, p.eng, this=l, args=[], st=p.st.copy()):
                    end = res_loc(q, q.val)
                    if end == it:
                        raise AnalysisBroken("iterator objects are not told apart")
                    for r, vals in walk(ck, W, q, it, end, n):
                        want = [e for e in es]
                        if k is not None:
                            lows = [r.st.facts.truth(mk_ge0(sub(e, k))) for e in es]
                            if None in lows:
                                # not compared with this element: both cases must be fine
                                x = lows.index(None)
                                ck.oblig("R5-iterate")
                                ck.bad("R5-iterate", f, None, f["fn"] + "|start", "the start is chosen without comparing the key with element %d" % x, r)
                                continue
                            want = [e for e, v in zip(es, lows) if v]
                        ck.require(len(vals) == len(want) and all(v != "..." and teq(r, v, e) for v, e in zip(vals, want)), "R5-iterate", f, None, "%s|order" % f["fn"],
                                   "%s over %d elements yields [%s] instead of [%s]" % (mode, n, ", ".join(v if v == "..." else show(v) for v in vals), ", ".join(map(show, want))), r)
        # ContainsAny
        W = World(ck, w)
        es = [W.num("e%d" % i) for i in range(n)]
        for a, b in zip(es, es[1:]):
            W.st.facts.assume(mk_ge0(sub(sub(b, a), ONE)), True)
        l = W.obj("a", op("Sl", *es))
        lo, hi = W.num("lo"), W.num("hi")
        f = ck.fn(cls + "::ContainsAny", 2)
        for p in ck.run(f, W.eng, this=l, args=[lo, hi], st=W.st):
            answer(ck, f, p, "any", OR(False, *[B.in_range(e, lo, hi) for e in es]), "ContainsAny(lo, hi) over %d elements" % n)


def serial(ck, w):
    cls = "paimon::RoaringBitmap%d" % w
    f = ck.fn(cls + "::Serialize", 1)
    W = World(ck, w)
    l = W.obj("a", A)
    nser = 0
    for p in ck.run(f, W.eng, this=l, args=[("v", "pool")], st=W.st):
        ser = p.events("bm-ser")
        nser += len(ser)
        same_set(ck, "R2-unchanged", f, p, "serialize", setof(p, l), hasA, "the serialised bitmap")
        ck.require(len(ser) == 1, "R6-bytes", f, None, f["fn"] + "|write", "the bitmap is written %d times" % len(ser), p)
        for e in ser:
            S = e.args[1]
            same_set(ck, "R6-bytes", f, p, "written", S, hasA, "the written set")
            n = alloc_size(p)
            if n is None:
                raise AnalysisBroken("allocation of the serialised bytes not found")
            ck.require(teq(p, n, B.size_term(p.eng, p.st, S)), "R6-bytes", f, None, f["fn"] + "|size",
                       "the bytes have size %s but the set is written as %s" % (show(n), show(S)), p)
            # the bytes returned are the bytes written
            ck.require(base_of(p, e.args[0]), "R6-bytes", f, e.line, f["fn"] + "|dest", "the set is not written to the start of the returned bytes: %s" % show(e.args[0]), p)
    if not nser:
        raise AnalysisBroken("no serialisation found")
    # reading from a buffer and from a stream
    f = ck.fn(cls + "::Deserialize", 2)
    W = World(ck, w)
    l = W.obj("a", A)
    buf, n = ("v", "buf"), W.eng.typed(("v", "n"), "unsigned long")
    W.st.store[("D", buf)] = op("Sser", Bs)
    for p in ck.run(f, W.eng, this=l, args=[buf, n], st=W.st):
        rd = p.events("bm-read")
        if p.ok is True:
            ck.require(len(rd) == 1 and rd[0].args[0] == buf and teq(p, rd[0].args[1], n), "R6-bytes", f, None, f["fn"] + "|buffer", "the bytes read are not the given buffer and length", p)
            same_set(ck, "R6-bytes", f, p, "read", setof(p, l), hasB, "the bitmap read back")
        own(ck, f, p, "deserialize", [l], W.owned.values())
        if p.events("catch"):
            ck.require(p.ok is False, "R6-bytes", f, None, f["fn"] + "|error", "bytes that are not a bitmap are accepted", p)
    f = ck.fn(cls + "::Deserialize", 1)
    W = World(ck, w)
    l = W.obj("a", A)
    stc = "paimon::ByteArrayInputStream"
    sl = ("T", "obj:stream", stc)
    stream = ("addr", sl)
    getpos, raw, length = ck.fn(stc + "::GetPos", 0), ck.fn(stc + "::GetRawData", 0), ck.fn(stc + "::Length", 0)

    def observe(p_eng, st, g):
        q = ck.run(g, p_eng, this=sl, args=[], st=st.copy())
        if len(q) != 1:
            raise AnalysisBroken("observer %s has %d paths" % (g["fn"], len(q)))
        return q[0].okval() if q[0].val[0] == "okv" else q[0].val
    pos, data, ln = observe(W.eng, W.st, getpos), observe(W.eng, W.st, raw), observe(W.eng, W.st, length)
    W.st.facts.assume(ge(pos, ZERO), True)
    W.st.facts.assume(ge(ln, pos), True)
    W.st.facts.assume(ge(c(2 ** 62), ln), True)
    for p in ck.run(f, W.eng, this=l, args=[stream], st=W.st):
        rd = p.events("bm-read")
        own(ck, f, p, "deserialize", [l], W.owned.values())
        pos2 = observe(p.eng, p.st, getpos)
        if p.events("catch"):
            ck.require(p.ok is False, "R6-bytes", f, None, f["fn"] + "|error", "bytes that are not a bitmap are accepted", p)
            ck.require(teq(p, pos2, pos), "R6-bytes", f, None, f["fn"] + "|position kept", "the stream moves although nothing was read", p)
            continue
        ck.require(len(rd) == 1 and teq(p, rd[0].args[0], data) and teq(p, rd[0].args[1], sub(ln, pos)), "R6-bytes", f, None, f["fn"] + "|stream",
                   "the bytes read are not the rest of the stream: %s" % [show(x) for x in rd[0].args] if rd else "nothing is read", p)
        if p.ok is False:
            continue
        S = setof(p, l)
        if len(rd) == 1:
            ck.require(S == op("Sread", *rd[0].args), "R6-bytes", f, None, f["fn"] + "|read", "the bitmap is %s after reading" % show(S), p)
        ck.require(teq(p, pos2, add(pos, B.size_term(p.eng, p.st, S))), "R6-bytes", f, None, f["fn"] + "|position", "the stream position becomes %s after reading a bitmap at %s" % (show(pos2), show(pos)), p)


def alloc_size(p):
    for e in p.events("call", "enter", "construct"):
        if e.fn and e.fn.endswith("Bytes::AllocateBytes"):
            return e.args[0]
    return None


def base_of(p, ptr):
    """the pointer is the start of the returned bytes object"""
    return "+" not in show(ptr)


def widen(ck):
    cls = "paimon::RoaringBitmap64"
    f = ck.fn(cls + "::RoaringBitmap64", 1, pick=lambda f: "RoaringBitmap32" in f["params"][0]["t"])
    g = ck.fn(cls + "::operator=", 1, pick=lambda f: "RoaringBitmap32" in f["params"][0]["t"])
    for fn, case in ((f, "ctor"), (g, "full"), (g, "moved")):
        W = World(ck, 64)
        b = W.obj("b", Bs, cls="paimon::RoaringBitmap32")
        if case == "full":
            a = W.obj("a", A)
        else:
            a = ("T", "obj:a", cls)
            W.eng.default_fields(W.st, a, cls, None)
        for p in ck.run(fn, W.eng, this=a, args=[("ref", b)], st=W.st):
            same_set(ck, "R1-member", fn, p, "widen " + case, setof(p, a), hasB, "a 64-bit bitmap made from a 32-bit one")
            same_set(ck, "R2-unchanged", fn, p, "widen source " + case, setof(p, b), hasB, "the 32-bit bitmap")
            own(ck, fn, p, "widen " + case, [a, b], W.owned.values())
            destroy(ck, p, cls, [a], "widening")
