"""Model of the CRoaring classes: a bitmap is an uninterpreted set.

The abstract value of a roaring bitmap is a set term.  `member(S, x)` turns a
set term into a formula over the membership of x in the unknown input sets, so
two sets are compared point by point.  Sets whose elements are named
(`op("Sl", e1, ..., en)` with e1 < ... < en) can also be iterated.

The meaning of the library calls is the documentation of CRoaring; its
implementation under third_party is not analysed."""
import mem as _mem
from absint import Event, Unsupported, _obj_locs
from dom import NULL, ONE, ZERO, add, c, ge, mk_eq0, mk_ge0, not_, op, sub
from specs import AND, NOT, OR, ev3

R32, R64 = "paimon::roaring::Roaring", "paimon::roaring::Roaring64Map"
I32, I64 = "paimon::roaring::RoaringSetBitForwardIterator", "paimon::roaring::Roaring64MapSetBitForwardIterator"
EMPTY = op("Sl")


def is_set(t):
    return isinstance(t, tuple) and t and (t[0] == "op" and t[1] in ("Sl", "S&", "S|", "S-", "S^", "S+", "Sx", "S+r", "S-r", "S~r", "Sopt", "Sread") or
                                           t[0] == "v" and str(t[1]).startswith("set:"))


def in_range(x, lo, hi):
    return AND(mk_ge0(sub(x, lo)), mk_ge0(sub(sub(hi, x), ONE)))


def member(t, x):
    if t[0] == "op":
        k, a = t[1], t[2:]
        if k == "Sl":
            return OR(*[mk_eq0(sub(x, e)) for e in a]) if a else False
        if k == "S&":
            return AND(member(a[0], x), member(a[1], x))
        if k == "S|":
            return OR(member(a[0], x), member(a[1], x))
        if k == "S-":
            return AND(member(a[0], x), NOT(member(a[1], x)))
        if k == "S^":
            p, q = member(a[0], x), member(a[1], x)
            return OR(AND(p, NOT(q)), AND(NOT(p), q))
        if k == "S+":
            return OR(mk_eq0(sub(x, a[1])), member(a[0], x))
        if k == "Sx":
            return AND(NOT(mk_eq0(sub(x, a[1]))), member(a[0], x))
        if k == "S+r":
            return OR(in_range(x, a[1], a[2]), member(a[0], x))
        if k == "S-r":
            return AND(NOT(in_range(x, a[1], a[2])), member(a[0], x))
        if k == "S~r":
            p, q = in_range(x, a[1], a[2]), member(a[0], x)
            return OR(AND(p, NOT(q)), AND(NOT(p), q))
        if k == "Sopt":
            return member(a[0], x)
    return op("has", t, x)


def known(t):
    """no part of the set was lost by the analysis"""
    if t[0] == "op" and t[1].startswith("S"):
        return all(known(a) for a in t[2:]) if t[1] in ("S&", "S|", "S-", "S^", "Sopt") else known(t[2]) if t[1] in ("S+", "Sx", "S+r", "S-r", "S~r") else True
    return t[0] == "v" and str(t[1]).startswith("set:")


def strip_opt(t):
    while t[0] == "op" and t[1] == "Sopt":
        t = t[2]
    return t


def decide(eng, s, f):
    """split the state until the formula is decided: [(state, bool)]"""
    out, todo = [], [s]
    while todo:
        s = todo.pop()
        v, a = ev3(s.facts, f)
        if v is not None:
            out.append((s, v))
            continue
        eng._count(1)
        for tv in (True, False):
            s2 = s.copy()
            if s2.facts.assume(a, tv) is not False:
                todo.append(s2)
    return out


def enum(eng, s, t):
    """[(state, sorted element list)] of a set with named elements, or None"""
    t = strip_opt(t)
    if t[0] != "op":
        return None
    k, a = t[1], t[2:]
    if k == "Sl":
        return [(s, list(a))]
    if k in ("S+", "Sx"):
        r = enum(eng, s, a[0])
        if r is None:
            return None
        out = []
        for s1, es in r:
            out += insert(eng, s1, es, a[1]) if k == "S+" else filt(eng, s1, es, NOT, lambda e, y=a[1]: mk_eq0(sub(e, y)))
        return out
    if k in ("S&", "S-"):
        r = enum(eng, s, a[0])
        if r is None:
            return None
        out = []
        for s1, es in r:
            out += filt(eng, s1, es, (lambda f: f) if k == "S&" else NOT, lambda e: member(a[1], e))
        return out
    if k == "S|":
        r = enum(eng, s, a[0])
        if r is None:
            return None
        out = []
        for s1, es in r:
            r2 = enum(eng, s1, a[1])
            if r2 is None:
                return None
            for s2, fs in r2:
                acc = [(s2, es)]
                for y in fs:
                    acc = [z for s3, l in acc for z in insert(eng, s3, l, y)]
                out += acc
        return out
    if k == "S+r" and a[1][0] == "c" and a[2][0] == "c" and a[2][1] - a[1][1] < 12:
        r = enum(eng, s, a[0])
        if r is None:
            return None
        acc = r
        for y in range(a[1][1], a[2][1]):
            acc = [z for s3, l in acc for z in insert(eng, s3, l, c(y))]
        return acc
    if k == "S+r":
        # a range of symbolic bounds: only when its length is a known small number
        d = sub(a[2], a[1])
        if d[0] == "c" and d[1] < 12:
            r = enum(eng, s, a[0])
            if r is None:
                return None
            acc = r
            for y in range(max(0, d[1])):
                acc = [z for s3, l in acc for z in insert(eng, s3, l, add(a[1], c(y)))]
            return acc
    return None


def filt(eng, s, es, wrap, pred):
    acc = [(s, [])]
    for e in es:
        acc = [(s2, l + [e] if v else l) for s1, l in acc for s2, v in decide(eng, s1, wrap(pred(e)))]
    return acc


def insert(eng, s, es, y):
    out = []
    cur = [(s, 0)]
    for i, e in enumerate(es):
        nxt = []
        for s1, _ in cur:
            for s2, lt in decide(eng, s1, mk_ge0(sub(sub(e, y), ONE))):
                if lt:
                    out.append((s2, es[:i] + [y] + es[i:]))
                    continue
                for s3, eq in decide(eng, s2, mk_eq0(sub(e, y))):
                    if eq:
                        out.append((s3, list(es)))
                    else:
                        nxt.append((s3, 0))
        cur = nxt
    return out + [(s1, es + [y]) for s1, _ in cur]


# ---------------------------------------------------------------- iterators
# op("Sit", S, pos): pos = ("c", i) index into a named set, op("from", lb): first element >= lb of an unknown set, op("end")
END = op("end")


def first(eng, S, lb):
    v = op("first", S, lb)
    eng.ttype[v] = "long"
    return v


def exists(S, lb):
    return op("exists>=", S, lb)


def at_end(eng, S, pos):
    """formula: the position is behind the last element"""
    if pos == END:
        return True
    if pos[0] == "c":
        n = len(S) - 2
        return pos[1] >= n
    return NOT(exists(S, pos[2]))


def it_value(eng, s, it):
    S, pos = it[2], it[3]
    if pos == END:
        return op("bad:deref end")
    if pos[0] == "c":
        return S[2 + pos[1]] if 0 <= pos[1] < len(S) - 2 else op("bad:deref end")
    v = first(eng, S, pos[2])
    s.facts.assume(mk_ge0(sub(v, pos[2])), True)
    return v


def start(eng, s, S, lb=None):
    """[(state, iterator at the first element >= lb)]"""
    r = enum(eng, s, S)
    if r is None:
        return [(s, op("Sit", strip_opt(S), op("from", lb if lb is not None else ZERO)))]
    out = []
    for s1, es in r:
        T = op("Sl", *es)
        if lb is None:
            out.append((s1, op("Sit", T, c(0))))
            continue
        cur = [s1]
        for i, e in enumerate(es):
            nxt = []
            for s2 in cur:
                for s3, v in decide(eng, s2, mk_ge0(sub(e, lb))):
                    if v:
                        out.append((s3, op("Sit", T, c(i))))
                    else:
                        nxt.append(s3)
            cur = nxt
        out += [(s2, op("Sit", T, c(len(es)))) for s2 in cur]
    return out


def val(eng, s, v):
    """set term behind an argument"""
    if v is not None and v[0] == "ref":
        return eng.read(s, v[1], None)
    return v


def norm(t):
    if t is not None and t[0] == "op" and t[1] == "empty":
        return EMPTY
    return t


def getset(eng, s, l):
    t = norm(eng.read(s, l, None))
    check_live(eng, s, l)
    return t


def check_live(eng, s, l):
    if ("dead", l) in s.ghost:
        s.events = s.events + (Event("use-after-delete", None, l, (), None, 0, eng.file),)
    if l == ("D", NULL) or l[0] == "D" and l[1] == ZERO:
        s.events = s.events + (Event("null-use", None, l, (), None, 0, eng.file),)


def boolval(eng, s, f):
    return [(s2, ONE if v else ZERO) for s2, v in decide(eng, s, f)]


def h_set(eng, e, st, fr):
    m = e["fn"].rsplit("::", 1)[1]
    args = e.get("a") or []
    out = []
    if e.get("obj") is None:
        for s, vs in eng.ev_args(None, e, args, st, fr):
            if m in ("readSafe", "read") and eng.mem:
                out.append((s, read_bytes(eng, s, vs, e)))
                continue
            if m in ("readSafe", "read"):
                base, off = vs[0], None
                src = eng.read(s, eng.deref(vs[0]), None) if vs[0][0] in ("addr", "ref") else s.store.get(("D", vs[0]))
                s.events = s.events + (Event("bm-read", e["fn"], None, tuple(vs), src, e.get("l", 0), eng.file, e, s.facts.copy()),)
                if src is not None and src[0] == "op" and src[1] == "Sser":
                    out.append((s, src[2]))
                else:
                    out.append((s, op("Sread", *vs)))
            elif m == "fastunion":
                got = []
                n, p = vs
                if n[0] != "c":
                    return NotImplemented
                sets = EMPTY
                elems = ptr_elems(eng, s, p)
                if elems is None or len(elems) < n[1]:
                    return NotImplemented
                for q in elems[:n[1]]:
                    sets = op("S|", sets, getset(eng, s, eng.deref(q))) if sets != EMPTY else getset(eng, s, eng.deref(q))
                out.append((s, sets))
            elif m in ("bitmapOf", "bitmapOfList"):
                return NotImplemented
            else:
                return NotImplemented
        return out
    for s0, l in _obj_locs(eng, e, st, fr):
        for s, vs in eng.ev_args(None, e, args, s0, fr):
            if ("throw",) in vs:
                out.append((s, ("throw",)))
                continue
            S = getset(eng, s, l)

            def put(t, v=("op", "void")):
                s.store[l] = t
                s.events = s.events + (Event("bm-write", e["fn"], l, (t,), None, e.get("l", 0), eng.file, e),)
                out.append((s, v))
            vs = [v if not (v is not None and v[0] == "ref") else v for v in vs]
            if m in ("operator=", "operator|=", "operator&=", "operator-=", "operator^=", "operator|", "operator&", "operator-", "operator^",
                     "operator==", "operator!=", "isSubset", "intersect", "and_cardinality", "or_cardinality", "andnot_cardinality", "swap"):
                if vs[0][0] == "ref":
                    check_live(eng, s, vs[0][1])
                T = norm(val(eng, s, vs[0]))
                if m == "operator=":
                    put(T, ("ref", l))
                elif m in ("operator|=", "operator&=", "operator-=", "operator^="):
                    put(op("S" + m[8], S, T), ("ref", l))
                elif m in ("operator|", "operator&", "operator-", "operator^"):
                    out.append((s, op("S" + m[8], S, T)))
                elif m in ("operator==", "operator!="):
                    a, b = strip_opt(S), strip_opt(T)
                    if eng.mem:
                        a, b = plain(a), plain(b)
                    f = True if a == b else False if ground(a) is not None and ground(b) is not None and eng.mem else op("Seq", *sorted((a, b), key=repr))
                    out += boolval(eng, s, f if m == "operator==" else NOT(f))
                elif m == "swap":
                    s.store[vs[0][1]] = S
                    put(T)
                elif m == "isSubset":
                    out += boolval(eng, s, mk_eq0(card(eng, s, op("S-", S, T))))
                elif m == "intersect":
                    out += boolval(eng, s, NOT(mk_eq0(card(eng, s, op("S&", S, T)))))
                else:
                    out.append((s, card(eng, s, op({"and_cardinality": "S&", "or_cardinality": "S|", "andnot_cardinality": "S-"}[m], S, T))))
            elif m == "add":
                put(op("S+", S, val(eng, s, vs[0])))
            elif m == "remove":
                put(op("Sx", S, val(eng, s, vs[0])))
            elif m in ("addChecked", "removeChecked"):
                x = val(eng, s, vs[0])
                for s2, had in decide(eng, s, member(S, x)):
                    s2.store[l] = op("S+" if m[0] == "a" else "Sx", S, x)
                    out.append((s2, c(had != (m[0] == "a"))))
            elif m in ("addRange", "removeRange", "flip"):
                put(op({"addRange": "S+r", "removeRange": "S-r", "flip": "S~r"}[m], S, vs[0], vs[1]))
            elif m in ("addRangeClosed", "removeRangeClosed", "flipClosed"):
                put(op({"a": "S+r", "r": "S-r", "f": "S~r"}[m[0]], S, vs[0], add(vs[1], ONE)))
            elif m == "clear":
                put(EMPTY)
            elif m == "contains":
                out += boolval(eng, s, member(S, val(eng, s, vs[0])))
            elif m == "containsRange":
                return NotImplemented
            elif m == "isEmpty":
                for s2, n in card_split(eng, s, S):
                    out += boolval(eng, s2, mk_eq0(n))
            elif m == "cardinality":
                out += card_split(eng, s, S)
            elif m in ("minimum", "maximum"):
                r = enum(eng, s, S)
                if r is None:
                    out.append((s, eng.typed(op("S" + m, strip_opt(S)), "long")))
                else:
                    for s1, es in r:
                        out.append((s1, es[0 if m == "minimum" else -1] if es else op("bad:empty")))
            elif m == "runOptimize" or m == "shrinkToFit" or m == "removeRunCompression":
                put(op("Sopt", S) if m == "runOptimize" else S, eng.typed(op("b:" + m, S), "bool") if m != "shrinkToFit" else ZERO)
            elif m == "getSizeInBytes" and eng.mem:
                out.append((s, c(len(image(eng, s, S)))))
            elif m == "write" and eng.mem:
                im = image(eng, s, S)
                _mem.put(eng, s, vs[0][1], vs[0][2], im, e)
                out.append((s, c(len(im))))
            elif m == "getSizeInBytes":
                out.append((s, size_term(eng, s, S)))
            elif m == "write":
                p = vs[0]
                s.store[eng.deref(p)] = op("Sser", S)
                s.events = s.events + (Event("bm-ser", e["fn"], l, (p, S), None, e.get("l", 0), eng.file, e, s.facts.copy()),)
                out.append((s, size_term(eng, s, S)))
            elif m == "begin":
                out += start(eng, s, S)
            elif m == "end":
                T = strip_opt(S)
                out.append((s, op("Sit", T, END)))
            elif m == "toString":
                out.append((s, op("S:text", strip_opt(S))))
            else:
                return NotImplemented
    return out


def ground(S):
    """the elements of a set term built from constants, or None"""
    if S[0] != "op":
        return None
    k, a = S[1], S[2:]
    if k == "Sl":
        es = [x[1] if x[0] == "c" else None for x in a]
        return None if None in es else set(es)
    if k == "Sopt":
        return ground(a[0])
    if k in ("S+", "Sx"):
        x, es = a[1][1] if a[1][0] == "c" else None, ground(a[0])
        return None if x is None or es is None else es | {x} if k == "S+" else es - {x}
    if k in ("S&", "S|", "S-", "S^"):
        x, y = ground(a[0]), ground(a[1])
        return None if x is None or y is None else x & y if k == "S&" else x | y if k == "S|" else x - y if k == "S-" else x ^ y
    return None


def plain(S):
    es = ground(S)
    return S if es is None else op("Sl", *[c(x) for x in sorted(es)])


IMAGE = 3


def image(eng, s, S):
    """serialised form of a set in byte memory: a few unknown bytes that stand for this set only"""
    S = plain(strip_opt(S))
    reg = eng.__dict__.setdefault("images", {})
    n = reg.setdefault(S, len(reg))
    out = []
    for i in range(IMAGE):
        b = eng.typed(("v", "image%d.%d" % (n, i)), "unsigned char")
        eng.__dict__.setdefault("image_of", {})[b] = (S, i)
        out.append(b)
    return out


def read_bytes(eng, s, vs, e):
    """the set whose image starts at the pointer; anything else is refused"""
    n = _mem.cint(eng, s, vs[1], "length of a bitmap image") if len(vs) > 1 else IMAGE
    if n < IMAGE:
        return ("throw",)
    if vs[0] is None or vs[0][0] != "ptr":
        raise Unsupported("bitmap image at %s" % (vs[0],))
    bs = _mem.get(eng, s, vs[0][1], vs[0][2], IMAGE, e)
    got = [getattr(eng, "image_of", {}).get(b) for b in bs]
    if None in got or [i for _, i in got] != list(range(IMAGE)) or len({S for S, _ in got}) != 1:
        return ("throw",)
    return got[0][0]


def size_term(eng, s, S):
    v = eng.typed(op("Ssize", S), "unsigned long")
    s.facts.assume(ge(v, ZERO), True)
    s.facts.assume(ge(c(2 ** 31 - 1), v), True)     # serialised sets stay below 2 GB
    return v


def card(eng, s, S):
    S = strip_opt(S)
    if S[0] == "op" and S[1] == "Sl":
        return c(len(S) - 2)
    v = eng.typed(op("card", S), "unsigned long")
    s.facts.assume(ge(v, ZERO), True)
    s.facts.assume(ge(c(2 ** 31 - 1), v), True)
    return v


def card_split(eng, s, S):
    r = enum(eng, s, S)
    if r is None:
        return [(s, card(eng, s, S))]
    return [(s1, c(len(es))) for s1, es in r]


def ptr_elems(eng, s, p):
    """values of the pointers in the array p points to"""
    import seq
    if p[0] == "addr" and p[1][0] == "I":
        cs = seq.cells(eng, s, p[1][1])
    elif seq.is_it(p):
        cs = seq.cells(eng, s, p[2]) if not isinstance(p[2], str) else None
    elif p[0] == "op" and len(p) > 2:
        cs = None
        for a in p[2:]:
            if isinstance(a, tuple) and a and a[0] == "op" and a[1] in ("seq", "empty", "list"):
                cs = list(a[2:]) if a[1] != "empty" else []
            elif isinstance(a, tuple) and a and a[0] in ("ref", "addr"):
                cs = seq.cells(eng, s, a[1])
    else:
        cs = None
    if cs is None:
        return None
    return [eng.read(s, x[1], None) if x[0] == "ref" else x for x in cs]


def h_it(eng, e, st, fr):
    m = e["fn"].rsplit("::", 1)[1]
    args = e.get("a") or []
    out = []
    for s0, l in _obj_locs(eng, e, st, fr):
        for s, vs in eng.ev_args(None, e, args, s0, fr):
            it = eng.read(s, l, None)
            check_live(eng, s, l)
            if m == "operator=":
                if vs[0][0] == "ref":
                    check_live(eng, s, vs[0][1])
                s.store[l] = val(eng, s, vs[0])
                out.append((s, ("ref", l)))
                continue
            if not (it[0] == "op" and it[1] == "Sit"):
                return NotImplemented
            S, pos = it[2], it[3]
            if m == "operator*":
                out.append((s, it_value(eng, s, it)))
            elif m == "operator++":
                if pos[0] == "c":
                    n = op("Sit", S, c(min(pos[1] + 1, len(S) - 2)))
                elif pos == END:
                    n = it
                else:
                    n = op("Sit", S, op("from", add(it_value(eng, s, it), ONE)))
                s.store[l] = n
                out.append((s, ("ref", l) if not args else it))
            elif m in ("operator==", "operator!="):
                o = val(eng, s, vs[0])
                if not (o[0] == "op" and o[1] == "Sit"):
                    return NotImplemented
                f = it_equal(eng, it, o)
                if f is None:
                    return NotImplemented
                out += boolval(eng, s, f if m == "operator==" else NOT(f))
            elif m in ("equalorlarger", "move", "move_equalorlarger"):
                k = val(eng, s, vs[0])
                # the 32-bit iterator may only move forward from the start
                for s2, n in start(eng, s, S, k):
                    s2.store[l] = n
                    if m == "equalorlarger":
                        out.append((s2, op("void")))
                    else:
                        out += boolval(eng, s2, NOT(at_end(eng, n[2], n[3])))
            else:
                return NotImplemented
    return out


def it_equal(eng, a, b):
    ea, eb = at_end(eng, a[2], a[3]), at_end(eng, b[2], b[3])
    if a[3] == END or b[3] == END:
        return AND(ea, eb)
    if a[3][0] == "c" and b[3][0] == "c" and a[2] == b[2]:
        return a[3] == b[3]
    if a == b:
        return True
    if a[3][0] == "op" and b[3][0] == "op" and a[2] == b[2]:
        return OR(AND(ea, eb), AND(NOT(ea), NOT(eb), mk_eq0(sub(first(eng, a[2], a[3][2]), first(eng, b[2], b[3][2])))))
    return None


def c_set(eng, e, st, fr):
    """constructors of the bitmap classes"""
    args = [a for a in (e.get("a") or []) if a.get("k") != "defarg"]
    out = []
    if not args:
        return [(st, EMPTY)]
    for s, l in eng.lv(args[0], st, fr):
        t = norm(eng.read(s, l, None))
        check_live(eng, s, l)
        if not is_set(t):
            return NotImplemented
        out.append((s, t))
    return out


def c_it(eng, e, st, fr):
    args = e.get("a") or []
    out = []
    for s, l in eng.lv(args[0], st, fr):
        t = eng.read(s, l, None)
        check_live(eng, s, l)
        if t[0] == "op" and t[1] == "Sit":
            out.append((s, t))
        else:
            t = norm(t)
            if not is_set(t):
                return NotImplemented
            exhausted = len(args) > 1 and args[1].get("k") != "defarg" and args[1].get("cv") in (1, "1", True)
            out += [(s, op("Sit", strip_opt(t), END))] if exhausted else start(eng, s, t)
    return out


METHODS = ["operator=", "operator|=", "operator&=", "operator-=", "operator^=", "operator|", "operator&", "operator-", "operator^", "operator==",
           "operator!=", "isSubset", "intersect", "and_cardinality", "or_cardinality", "andnot_cardinality", "swap", "add", "remove", "addChecked",
           "removeChecked", "addRange", "removeRange", "flip", "addRangeClosed", "removeRangeClosed", "flipClosed", "clear", "contains", "isEmpty",
           "cardinality", "minimum", "maximum", "runOptimize", "shrinkToFit", "removeRunCompression", "getSizeInBytes", "write", "begin", "end", "toString", "readSafe", "read",
           "fastunion"]
ITM = ["operator=", "operator*", "operator++", "operator==", "operator!=", "equalorlarger", "move", "move_equalorlarger"]
HANDLERS = {}
for R in (R32, R64):
    HANDLERS["ctor:" + R] = c_set
    for m in METHODS:
        HANDLERS[R + "::" + m] = h_set
for I in (I32, I64):
    HANDLERS["ctor:" + I] = c_it
    for m in ITM:
        HANDLERS[I + "::" + m] = h_it
