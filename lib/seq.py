"""Bounded-shape container domain.

With Engine(seq=True) a standard container whose number of elements is known is
an explicit list of cells, op("seq", ("ref", cell), ...); a string of known
length is ("s", text) or op("str", char term, ...).  Element values stay
abstract terms.  Everything whose shape is not known falls back to the
uninterpreted container model in absint.py.
"""
import re

from dom import NULL, ONE, ZERO, add, c, mk_eq0, not_, op, strip_t, sub

STRINGS = ("basic_string", "basic_string_view")
MAPS = ("map", "unordered_map", "multimap", "concurrent_hash_map")
SETS = ("set", "unordered_set")
SEQS = ("vector", "deque", "list", "queue", "stack", "array", "initializer_list")
NPOS = (1 << 64) - 1
END = ("s", "end")


def targs(t):
    """template arguments of a type"""
    t = strip_t(t or "")
    if "<" not in t:
        return []
    inner = t[t.index("<") + 1: t.rindex(">")]
    out, d, cur = [], 0, ""
    for ch in inner:
        if ch in "<(":
            d += 1
        elif ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def elem_type(t):
    a = targs(t)
    return a[0] if a else ""


# ---------------------------------------------------------------- strings
def chars(v):
    """char terms of a string of known length, else None"""
    if v is None:
        return None
    if v[0] == "s":
        return [c(b if b < 128 else b - 256) for b in v[1].encode("utf-8", "surrogateescape")] if all(ord(x) < 0x110000 for x in v[1]) else None
    if v[0] == "op" and v[1] == "str":
        return list(v[2:])
    if v[0] == "op" and v[1] == "empty" and v[2] in (("s", "std::basic_string"), ("s", "std::string"), ("s", "std::basic_string_view")):
        return []
    return None


def mkstr(ts):
    if all(t[0] == "c" and 0 <= t[1] < 128 for t in ts):
        return ("s", "".join(chr(t[1]) for t in ts))
    return op("str", *ts)


# ---------------------------------------------------------------- sequences
def is_seq(v):
    return v is not None and v[0] == "op" and v[1] in ("seq", "list", "empty", "fill")


def cells(eng, s, l, t=None):
    """cells of the container at l (normalised in place), or None"""
    v = s.store.get(l)
    if v is None:
        return None
    if v[0] == "ref":
        return cells(eng, s, v[1], t)
    if v[0] != "op":
        return None
    if v[1] == "seq":
        return list(v[2:])
    if v[1] == "empty":
        return []
    if v[1] == "list":
        et = elem_type(t) if t else ""
        cs = [put(eng, s, x, et) for x in v[2:]]
        s.store[l] = op("seq", *cs)
        return cs
    if v[1] == "fill" and v[2][0] == "c" and v[2][1] <= 64:
        et = elem_type(t) if t else ""
        cs = [put(eng, s, v[3] if len(v) > 3 else default_value(eng, s, et), et) for _ in range(v[2][1])]
        s.store[l] = op("seq", *cs)
        return cs
    return None


def default_value(eng, s, t):
    t = strip_t(t)
    if eng.is_record(t):
        from absint import Frame, make_object
        name = t.split("<")[0]
        if any(f.get("fk") == "ctor" and not f.get("params") and f.get("body") is not None and not f.get("dep") for f in eng.prog.fns(name + "::" + name.rsplit("::", 1)[-1])):
            r = make_object(eng, t, [], {"l": 0}, s, Frame(0, None, None, None, 0, eng.file))
            if len(r) == 1 and r[0][0] is s:
                return r[0][1]
        l = eng.temp(t)
        eng.default_fields(s, l, t, None)
        return ("ref", l)
    if t.startswith(("std::shared_ptr", "std::unique_ptr")) or t.endswith("*"):
        return NULL
    if t.startswith("std::optional"):
        return ("none",)
    if t.startswith("std::"):
        return op("empty", ("s", t.split("<")[0]))
    return ZERO


def clone(eng, s, v):
    """deep copy of a container value"""
    if v is not None and v[0] == "op" and v[1] == "seq":
        return op("seq", *[copy_cell(eng, s, x) for x in v[2:]])
    return v


def copy_cell(eng, s, cell):
    src = cell[1]
    d = eng.temp(eng.celltype.get(src))
    eng.celltype[d] = eng.celltype.get(src)
    copy_loc(eng, s, src, d)
    return ("ref", d)


def copy_loc(eng, s, src, d):
    from absint import under
    t = eng.celltype.get(src)
    if t and eng.is_record(t):
        eng.copy_object(s, src, d, t)
        return
    for k, v in list(s.store.items()):
        if under(k, src):
            s.store[eng._rebase(k, src, d)] = clone(eng, s, v)
    if not any(under(k, src) for k in s.store):
        s.store[d] = eng.read(s, src, t)


def put(eng, s, v, t):
    """a fresh cell holding value v of type t"""
    d = eng.temp(t)
    eng.celltype[d] = t
    assign(eng, s, d, v, t)
    return ("ref", d)


def assign(eng, s, d, v, t):
    from absint import under
    for k in list(s.store):
        if under(k, d):
            del s.store[k]
    if v is None:
        return
    if v[0] == "ref":
        src = v[1]
        if eng.is_record(t):
            eng.copy_object(s, src, d, t)
            return
        if src in s.store:
            w = s.store[src]
            if w[0] == "ref" and w[1] != src:
                return assign(eng, s, d, w, t)
            v = w
        elif strip_t(t).startswith("std::pair") or any(k != src and under(k, src) for k in s.store):
            n = 0
            for k, w in list(s.store.items()):
                if k != src and under(k, src):
                    s.store[eng._rebase(k, src, d)] = clone(eng, s, w)
                    n += 1
            if n:
                return
            v = eng.read(s, src, t)
        else:
            v = eng.read(s, src, t)
    if v[0] == "op" and v[1] == "pair" and len(v) == 4:
        ta = targs(t)
        for nm, w, ft in zip(("first", "second"), v[2:], ta if len(ta) == 2 else ("", "")):
            assign(eng, s, ("F", d, nm), w, ft)
        return
    s.store[d] = clone(eng, s, v)


def load(eng, s, ref, t=None):
    """value behind a reference (records stay references)"""
    if ref is not None and ref[0] == "ref":
        l = ref[1]
        if l in s.store:
            return s.store[l]
        if l[0] == "I" and l[2][0] == "c" and l[1] in s.store and chars(s.store[l[1]]) is not None:
            return eng.read(s, l, "char")
        f, g = ("F", l, "first"), ("F", l, "second")
        if f in s.store or g in s.store:
            return op("pair", load(eng, s, ("ref", f)), load(eng, s, ("ref", g)))
        if t and not eng.is_record(t):
            return eng.read(s, l, t)
    return ref


def set_cells(eng, s, l, cs, e, fr):
    eng.write(s, l, op("seq", *cs), e, fr)


# ---------------------------------------------------------------- iterators
def drop(eng, s, cells_):
    """the elements are gone: whatever is read from them later is unknown"""
    for x in cells_:
        if x[0] == "ref":
            eng.havoc(s, x[1])


def it(l, cell):
    return op("iter", ("addr", l), cell)


def is_it(v):
    return v is not None and v[0] == "op" and v[1] == "iter"


def is_rit(v):
    """reverse iterator: op("riter", address, cell or END)"""
    return v is not None and v[0] == "op" and v[1] == "riter"


def rit_index(eng, s, v):
    cs, i = it_index(eng, s, v)
    if i is None:
        return cs, None
    return cs, len(cs) if v[3] == END else len(cs) - 1 - i


def rit_at(l, cs, i):
    return op("riter", ("addr", l), cs[len(cs) - 1 - i] if 0 <= i < len(cs) else END)


def rit_move(eng, s, v, k):
    cs, i = rit_index(eng, s, v)
    if i is None or not (0 <= i + k <= len(cs)):
        return op("badit", v, c(k))
    return rit_at(v[2][1], cs, i + k)


def it_cells(eng, s, l):
    """cells of the container at l; the characters of a string are its elements"""
    cs = cells(eng, s, l)
    v = s.store.get(l)
    if cs is None and v is not None and v[0] == "ref":
        return it_cells(eng, s, v[1])
    if cs is None and v is not None and chars(v) is not None:
        return [("ref", ("I", l, c(i))) for i in range(len(chars(v)))]
    return cs


def it_index(eng, s, v):
    cs = it_cells(eng, s, v[2][1])
    if cs is None:
        return None, None
    if v[3] == END:
        return cs, len(cs)
    if v[3] in cs:
        return cs, cs.index(v[3])
    return cs, None


def it_at(l, cs, i):
    return it(l, cs[i] if 0 <= i < len(cs) else END)


def it_move(eng, s, v, k):
    cs, i = it_index(eng, s, v)
    if i is None or not (0 <= i + k <= len(cs)):
        return op("badit", v, c(k))
    return it_at(v[2][1], cs, i + k)


# ---------------------------------------------------------------- values
# <cctype> in the "C" locale
CTYPE = {}
for _n, _f in (("toupper", lambda b: b - 32 if 0x61 <= b <= 0x7A else b), ("tolower", lambda b: b + 32 if 0x41 <= b <= 0x5A else b),
               ("isdigit", lambda b: int(0x30 <= b <= 0x39)), ("isupper", lambda b: int(0x41 <= b <= 0x5A)),
               ("islower", lambda b: int(0x61 <= b <= 0x7A)), ("isalpha", lambda b: int(0x41 <= b <= 0x5A or 0x61 <= b <= 0x7A)),
               ("isspace", lambda b: int(b == 0x20 or 9 <= b <= 13))):
    CTYPE[_n] = CTYPE["std::" + _n] = _f


def invoke(eng, s, f, args, fr, e, ret="bool"):
    """call a comparator/predicate value"""
    if f is not None and f[0] == "ref" and f[1] in s.store:
        f = s.store[f[1]]
    if f is not None and f[0] == "lam":
        lam, dfr = eng.lams[f[1]]
        return [(s2, v) for k, s2, v in eng.run_body(lam["def"], s, dfr.this, args, fr, e, parent=dfr) if k != "throw"]
    if f is not None and f[0] == "addr" and f[1][0] == "G" and f[1][1].startswith("fn:"):
        n = f[1][1][3:]
        if n in CTYPE and len(args) == 1:
            v = load(eng, s, args[0])
            if v[0] == "c":
                return [(s, c(CTYPE[n](v[1])))]
        fs = [x for x in eng.prog.fns(f[1][1][3:]) if not x.get("dep")]
        if fs:
            return [(s2, v) for k, s2, v in eng.run_fn(fs[0], s, None, args, fr, e) if k != "throw"]
    return [(s, eng.typed(op("call", f, *[load(eng, s, a) for a in args]), ret))]


def less(eng, s, x, y, t, fr, e):
    """x < y for elements (references)"""
    if eng.is_record(t or ""):
        fs = [f for f in eng.prog.fns(strip_t(t) + "::operator<") if not f.get("dep")]
        if fs:
            return [(s2, v) for k, s2, v in eng.run_fn(fs[0], s, x[1], [y], fr, e) if k != "throw"]
    a, b = load(eng, s, x, t), load(eng, s, y, t)
    return less_val(eng, s, a, b, t, fr, e)


def less_val(eng, s, a, b, t, fr, e):
    if a[0] == "op" and a[1] == "pair" and b[0] == "op" and b[1] == "pair":
        ta = targs(t) or ["", ""]
        out = []
        for s1, v in less_val(eng, s, a[2], b[2], ta[0], fr, e):
            for s2, tv in eng.branch(s1, v):
                if tv:
                    out.append((s2, ONE))
                    continue
                for s3, w in equal_val(eng, s2, a[2], b[2], ta[0], fr, e):
                    for s4, tw in eng.branch(s3, w):
                        if tw:
                            out += less_val(eng, s4, a[3], b[3], ta[-1], fr, e)
                        else:
                            out.append((s4, ZERO))
        return out
    if a[0] == "s" and b[0] == "s":
        return [(s, c(a[1] < b[1]))]
    if a == b:
        return [(s, ZERO)]
    return [(s, eng.compare(s, "<", a, b, strip_t(t or "")))]


def equal(eng, s, x, y, t, fr, e):
    if x[0] == "ref" and eng.is_record(t or ""):
        fs = [f for f in eng.prog.fns(strip_t(t) + "::operator==") if not f.get("dep")]
        if fs:
            return [(s2, v) for k, s2, v in eng.run_fn(fs[0], s, x[1], [y], fr, e) if k != "throw"]
    return equal_val(eng, s, load(eng, s, x, t), load(eng, s, y, t), t, fr, e)


def equal_val(eng, s, a, b, t, fr, e):
    if a == b:
        return [(s, ONE)]
    ca, cb = chars(a), chars(b)
    if ca is not None and cb is not None:
        if len(ca) != len(cb):
            return [(s, ZERO)]
        return conj(eng, s, [(x, y, "char") for x, y in zip(ca, cb)], lambda s, x: [(s, eng.compare(s, "==", x[0], x[1], "char"))])
    if a[0] in ("none", "some") and b[0] in ("none", "some"):
        return [(s, ZERO)] if a[0] != b[0] else equal(eng, s, a[1], b[1], (targs(t) or [""])[0], fr, e)
    if a[0] == "op" and a[1] == "pair" and b[0] == "op" and b[1] == "pair":
        ta = targs(t) or ["", ""]
        return conj(eng, s, [(a[2], b[2], ta[0]), (a[3], b[3], ta[-1])], lambda s, x: equal(eng, s, x[0], x[1], x[2], fr, e))
    if is_seq(a) and is_seq(b) and a[1] == "seq" or (is_seq(a) and is_seq(b) and b[1] == "seq"):
        xs = list(a[2:]) if a[1] == "seq" else [] if a[1] == "empty" else None
        ys = list(b[2:]) if b[1] == "seq" else [] if b[1] == "empty" else None
        if xs is not None and ys is not None:
            if len(xs) != len(ys):
                return [(s, ZERO)]
            et = elem_type(t)
            return conj(eng, s, list(zip(xs, ys)), lambda s, x: equal(eng, s, x[0], x[1], et, fr, e))
    return [(s, eng.compare(s, "==", a, b, strip_t(t or "")))]


def conj(eng, s, items, f):
    out, cur = [], [s]
    for x in items:
        nxt = []
        for s1 in cur:
            for s2, v in f(s1, x):
                for s3, tv in eng.branch(s2, eng.as_bool(v)):
                    if tv:
                        nxt.append(s3)
                    else:
                        out.append((s3, ZERO))
        cur = nxt
    return out + [(s1, ONE) for s1 in cur]


def find_key(eng, s, cs, key, kt, ismap, fr, e):
    """[(state, index or None)] of the element with the key"""
    out, cur = [], [s]
    for i, x in enumerate(cs):
        k = ("ref", ("F", x[1], "first")) if ismap else x
        nxt = []
        for s1 in cur:
            for s2, v in equal(eng, s1, k, key, kt, fr, e):
                for s3, tv in eng.branch(s2, eng.as_bool(v)):
                    if tv:
                        out.append((s3, i))
                    else:
                        nxt.append(s3)
        cur = nxt
    return out + [(s1, None) for s1 in cur]


def sorted_pos(eng, s, cs, key, kt, ismap, fr, e):
    """[(state, index)] of the first element that is not less than the key"""
    out, cur = [], [s]
    for i, x in enumerate(cs):
        k = ("ref", ("F", x[1], "first")) if ismap else x
        nxt = []
        for s1 in cur:
            for s2, v in less(eng, s1, k, key, kt, fr, e):
                for s3, tv in eng.branch(s2, eng.as_bool(v)):
                    if tv:
                        nxt.append(s3)
                    else:
                        out.append((s3, i))
        cur = nxt
    return out + [(s1, len(cs)) for s1 in cur]


# ---------------------------------------------------------------- operations
def construct_into(eng, s, t, args, e, fr):
    """[(state, cell)] of a new element built from constructor arguments"""
    from absint import make_object
    t = strip_t(t)
    if eng.is_record(t):
        if len(args) == 1 and strip_t(args[0].get("t", "")) == t:
            return [(s1, put(eng, s1, ("ref", l), t)) for s1, l in eng.lv(args[0], s, fr)]
        out = []
        for s1, v in make_object(eng, t, args, e, s, fr):
            eng.celltype[v[1]] = t
            out.append((s1, ("ref", v[1])))
        return out
    out = []
    for s1, vs in eng.ev_args(None, dict(e, a=args, pm=["c"] * len(args)), args, s, fr):
        if t.startswith("std::pair") and len(vs) == 2:
            out.append((s1, put(eng, s1, op("pair", *vs), t)))
        elif t.startswith("std::pair") and len(vs) == 3 and strip_t(args[0].get("t", "")) == "std::piecewise_construct_t":
            out.append((s1, put(eng, s1, op("pair", vs[1], vs[2]), t)))
        elif not vs:
            out.append((s1, put(eng, s1, default_value(eng, s1, t), t)))
        elif t == "std::thread" and strip_t(args[0].get("t", "")) != t:
            out.append((s1, put(eng, s1, op("thread", *(eng.argval(s1, v, a.get("t")) for v, a in zip(vs, args))), t)))
        else:
            out.append((s1, put(eng, s1, vs[0], t)))
    return out


def seq_op(eng, e, s, fr, l, v, cls, m):
    """container member call; None when the shape is not known"""
    if cls in STRINGS and not is_it(v) and not is_rit(v):
        return str_op(eng, e, s, fr, l, v, cls, m)
    args = [a for a in e.get("a") or [] if a.get("k") != "defarg"]
    if is_it(v) or is_rit(v):
        return it_op(eng, e, s, fr, l, v, m, args)
    if cls == "pair":
        return None
    if cls in STREAMS:
        return stream_op(eng, e, s, fr, l, v, m, args)
    if cls == "bitset":
        return bitset_op(eng, e, s, fr, l, v, m, args)
    ct = e["obj"].get("t") if e.get("obj") else None
    if ct and strip_t(ct).endswith("*"):
        ct = strip_t(ct)[:-1]
    if v[0] == "ref" and v[1] in s.store:
        l = v[1]
    cs = cells(eng, s, l, ct)
    if cs is None:
        return None
    cls = cls.replace("_Vector_base", "vector")
    base = strip_t(ct or "").split("<")[0].split("::")[-1]
    if base in ("map", "unordered_map", "set", "unordered_set", "queue", "stack", "multimap"):
        cls = base
    a = targs(ct)
    ismap, isset = cls in MAPS, cls in SETS
    et = ("std::pair<const %s, %s>" % (a[0], a[1])) if ismap and len(a) > 1 else (a[0] if a else "")
    kt = a[0] if a else ""
    out = []

    def args_():
        return eng.ev_args(None, dict(e, a=args), args, s, fr)

    def ev(kind, s2, vs, r=None):
        from absint import Event
        s2.events = s2.events + (Event("mcall", cls + "::" + kind, l, (op("seq", *cs),) + tuple(vs), r, e.get("l", 0), eng.file, e, s2.facts.copy()),)

    if m in ("size", "length"):
        return [(s, c(len(cs)))]
    if m == "empty":
        return [(s, c(not cs))]
    if m in ("begin", "cbegin"):
        return [(s, it_at(l, cs, 0))]
    if m in ("end", "cend"):
        return [(s, it(l, END))]
    if m in ("rbegin", "crbegin"):
        return [(s, rit_at(l, cs, 0))]
    if m in ("rend", "crend"):
        return [(s, op("riter", ("addr", l), END))]
    if m in ("reserve", "shrink_to_fit"):
        return [(s2, op("void")) for s2, vs in args_()]
    if m == "max_size":
        return None
    if m == "clear":
        set_cells(eng, s, l, [], e, fr)
        return [(s, op("void"))]
    if m in ("front",):
        return [(s, cs[0] if cs else op("bad:front"))]
    if m in ("back",):
        return [(s, cs[-1] if cs else op("bad:back"))]
    if m == "top":
        return [(s, cs[-1] if cs else op("bad:top"))]
    if m in ("pop_back",) or (m == "pop" and cls == "stack"):
        if not cs:
            return None
        set_cells(eng, s, l, cs[:-1], e, fr)
        return [(s, op("void"))]
    if m in ("pop_front",) or (m == "pop" and cls == "queue"):
        if not cs:
            return None
        set_cells(eng, s, l, cs[1:], e, fr)
        return [(s, op("void"))]
    if m in ("push_back", "push", "push_front"):
        for s2, vs in args_():
            cell = put(eng, s2, vs[0], et)
            cur = cells(eng, s2, l, ct)
            ev(m, s2, vs)
            set_cells(eng, s2, l, [cell] + cur if m == "push_front" else cur + [cell], e, fr)
            out.append((s2, op("void")))
        return out
    if m in ("emplace_back", "emplace_front") or (m == "emplace" and cls in ("queue", "stack")):
        for s2, cell in construct_into(eng, s, et, args, e, fr):
            cur = cells(eng, s2, l, ct)
            ev(m, s2, (cell,))
            set_cells(eng, s2, l, [cell] + cur if m == "emplace_front" else cur + [cell], e, fr)
            out.append((s2, cell))
        return out
    if m in ("operator[]", "at") and not ismap:
        for s2, vs in args_():
            i = eng.argval(s2, vs[0])
            if i[0] != "c":
                return None if not out else out
            if not 0 <= i[1] < len(cs):
                s2.events = s2.events + (bad_index(eng, e, l, i, len(cs), s2),)
                out.append((s2, eng.typed(op("bad:index", i), e.get("t"))))
            else:
                out.append((s2, cs[i[1]]))
        return out
    if m in ("operator[]", "at", "find", "count", "contains") and (ismap or isset):
        for s2, vs in args_():
            for s3, i in find_key(eng, s2, cs, vs[0], kt, ismap, fr, e):
                if m in ("count", "contains"):
                    out.append((s3, c(i is not None)))
                elif m == "find":
                    out.append((s3, it_at(l, cs, len(cs) if i is None else i)))
                elif i is not None:
                    out.append((s3, ("ref", ("F", cs[i][1], "second"))))
                elif m == "at":
                    out.append((s3, op("bad:at")))
                else:
                    for s4, cell in insert_key(eng, s3, l, cs, op("pair", vs[0], default_value(eng, s3, a[1])), vs[0], et, kt, cls, ismap, e, fr):
                        ev(m, s4, vs)
                        out.append((s4, ("ref", ("F", cell[1], "second"))))
        return out
    if m in ("lower_bound", "upper_bound") and cls in ("map", "set"):
        for s2, vs in args_():
            if m == "lower_bound":
                for s3, i in sorted_pos(eng, s2, cs, vs[0], kt, ismap, fr, e):
                    out.append((s3, it_at(l, cs, i)))
            else:
                cur, done = [s2], []
                for i, x in enumerate(cs):
                    k = ("ref", ("F", x[1], "first")) if ismap else x
                    nxt = []
                    for s3 in cur:
                        for s4, v2 in less(eng, s3, vs[0], k, kt, fr, e):
                            for s5, tv in eng.branch(s4, eng.as_bool(v2)):
                                if tv:
                                    done.append((s5, it_at(l, cs, i)))
                                else:
                                    nxt.append(s5)
                    cur = nxt
                out += done + [(s3, it(l, END)) for s3 in cur]
        return out
    if m in ("insert", "emplace", "try_emplace", "insert_or_assign") and (ismap or isset):
        if m in ("insert",) and len(args) == 2:
            for s2, vs in args_():
                xs = span(eng, s2, eng.argval(s2, vs[0]), eng.argval(s2, vs[1]))
                if xs is None:
                    return None
                cur = [s2]
                for x in xs:
                    nxt = []
                    for s3 in cur:
                        key = ("ref", ("F", x[1], "first")) if ismap else x
                        cc = cells(eng, s3, l, ct)
                        for s4, i in find_key(eng, s3, cc, key, kt, ismap, fr, e):
                            if i is None:
                                nxt += [s5 for s5, _ in insert_key(eng, s4, l, cc, x, key, et, kt, cls, ismap, e, fr)]
                            else:
                                nxt.append(s4)
                    cur = nxt
                out += [(s3, op("void")) for s3 in cur]
            return out
        for s2, vs in args_():
            if ismap and len(vs) == 2:
                val = op("pair", vs[0], vs[1])
                key = vs[0]
            elif ismap and m == "try_emplace" and len(vs) == 1:
                val = op("pair", vs[0], default_value(eng, s2, a[1]))
                key = vs[0]
            else:
                val = load(eng, s2, vs[0])
                key = val
                if ismap:
                    if not (val[0] == "op" and val[1] == "pair"):
                        if val[0] == "ref":
                            key = ("ref", ("F", val[1], "first"))
                        else:
                            return None
                    else:
                        key = val[2]
                else:
                    key = vs[0]
                    val = vs[0]
            cc = cells(eng, s2, l, ct)
            for s3, i in find_key(eng, s2, cc, key, kt, ismap, fr, e):
                if i is not None:
                    if m == "insert_or_assign":
                        assign(eng, s3, ("F", cc[i][1], "second"), vs[1], a[1])
                    out.append((s3, op("pair", it_at(l, cc, i), ZERO)))
                else:
                    for s4, cell in insert_key(eng, s3, l, cc, val, key, et, kt, cls, ismap, e, fr):
                        ev(m, s4, vs)
                        out.append((s4, op("pair", it(l, cell), ONE)))
        return out
    if m in ("insert", "emplace"):
        for s2, vs in args_():
            pos = eng.argval(s2, vs[0])
            if not is_it(pos):
                return None
            cur, i = it_index(eng, s2, pos)
            if i is None:
                return None
            if len(vs) == 3:
                xs = span(eng, s2, eng.argval(s2, vs[1]), eng.argval(s2, vs[2]))
                if xs is None:
                    return None
                new = [put(eng, s2, x, et) for x in xs]
            elif m == "emplace":
                if len(vs) != 2:
                    return None
                new = [put(eng, s2, vs[1], et)]
            else:
                x = load(eng, s2, vs[1])
                if x[0] == "op" and x[1] == "list":
                    new = [put(eng, s2, y, et) for y in x[2:]]
                else:
                    new = [put(eng, s2, vs[1], et)]
            ev(m, s2, vs)
            set_cells(eng, s2, l, cur[:i] + new + cur[i:], e, fr)
            out.append((s2, it(l, new[0]) if new else pos))
        return out
    if m == "erase":
        for s2, vs in args_():
            pos = eng.argval(s2, vs[0])
            if is_it(pos):
                cur, i = it_index(eng, s2, pos)
                if i is None or i >= len(cur):
                    return None
                j = i + 1
                if len(vs) > 1:
                    _, j = it_index(eng, s2, eng.argval(s2, vs[1]))
                    if j is None:
                        return None
                rest = cur[:i] + cur[j:]
                ev(m, s2, vs)
                set_cells(eng, s2, l, rest, e, fr)
                drop(eng, s2, cur[i:j])
                out.append((s2, it_at(l, rest, i)))
            elif ismap or isset:
                for s3, i in find_key(eng, s2, cs, vs[0], kt, ismap, fr, e):
                    if i is not None:
                        ev(m, s3, vs)
                        set_cells(eng, s3, l, cs[:i] + cs[i + 1:], e, fr)
                        drop(eng, s3, cs[i:i + 1])
                    out.append((s3, c(i is not None)))
            else:
                return None
        return out
    if m == "resize":
        for s2, vs in args_():
            n = eng.argval(s2, vs[0])
            if n[0] != "c" or n[1] > 64:
                return None
            new = cs[:n[1]] + [put(eng, s2, vs[1] if len(vs) > 1 else default_value(eng, s2, et), et) for _ in range(n[1] - len(cs))]
            set_cells(eng, s2, l, new, e, fr)
            out.append((s2, op("void")))
        return out
    if m == "swap":
        for s2, vs in args_():
            o = vs[0][1]
            x, y = s2.store.get(l), s2.store.get(o)
            if y is None:
                return None
            s2.store[l], s2.store[o] = y, x
            out.append((s2, op("void")))
        return out
    if m == "splice" and cls == "list" and len(args) in (2, 3):
        for s2, vs in args_():
            pos = eng.argval(s2, vs[0])
            o = vs[1][1]
            oc = cells(eng, s2, o, ct)
            if oc is None or not is_it(pos):
                return None
            if len(vs) == 3:
                x = eng.argval(s2, vs[2])
                if not is_it(x) or x[3] not in oc:
                    return None
                moved = [x[3]]
            else:
                moved = oc
            set_cells(eng, s2, o, [y for y in oc if y not in moved], e, fr)
            cur, i = it_index(eng, s2, pos)
            if i is None:
                return None
            ev(m, s2, vs)
            set_cells(eng, s2, l, cur[:i] + moved + cur[i:], e, fr)
            out.append((s2, op("void")))
        return out
    if m.startswith("~"):
        return [(s, op("void"))]
    return None


def bad_index(eng, e, l, i, n, s):
    from absint import Event
    return Event("outofrange", e.get("fn"), l, (i, c(n)), None, e.get("l", 0), eng.file, e, s.facts)


def insert_key(eng, s, l, cs, val, key, et, kt, cls, ismap, e, fr):
    out = []
    if cls in ("map", "set", "multimap"):
        poss = sorted_pos(eng, s, cs, key, kt, ismap, fr, e)
    else:
        poss = [(s, len(cs))]
    for s2, i in poss:
        cell = put(eng, s2, val, et)
        set_cells(eng, s2, l, cs[:i] + [cell] + cs[i:], e, fr)
        out.append((s2, cell))
    return out


def span(eng, s, a, b):
    """cells between two iterators"""
    if is_rit(a) and is_rit(b) and a[2] == b[2]:
        cs, i = rit_index(eng, s, a)
        _, j = rit_index(eng, s, b)
        return None if i is None or j is None or i > j else cs[::-1][i:j]
    if not (is_it(a) and is_it(b)) or a[2] != b[2]:
        return None
    cs, i = it_index(eng, s, a)
    _, j = it_index(eng, s, b)
    if i is None or j is None or i > j:
        return None
    return cs[i:j]


def it_op(eng, e, s, fr, l, v, m, args):
    move, index = (rit_move, rit_index) if is_rit(v) else (it_move, it_index)
    if m in ("operator*", "operator->"):
        if v[3] == END:
            s.events = s.events + (bad_index(eng, e, l, END, 0, s),)
            r = eng.typed(op("bad:end"), e.get("t"))
            return [(s, r)]
        if m == "operator->":
            return [(s, ("addr", v[3][1]))]
        return [(s, v[3])]
    if m in ("operator++", "operator--"):
        nv = move(eng, s, v, 1 if m == "operator++" else -1)
        s.store[l] = nv
        return [(s, v if args or (e.get("a") and len(e["a"]) > 0) else nv)]
    if m in ("operator+", "operator-", "operator+=", "operator-="):
        out = []
        for s2, vs in eng.ev_args(None, dict(e, a=args), args, s, fr):
            k = eng.argval(s2, vs[0])
            if is_it(k) or is_rit(k):
                _, i = index(eng, s2, v)
                _, j = index(eng, s2, k)
                if i is None or j is None:
                    return None
                out.append((s2, c(i - j)))
                continue
            if k[0] != "c":
                return None
            nv = move(eng, s2, v, k[1] if "+" in m else -k[1])
            if m.endswith("="):
                s2.store[l] = nv
            out.append((s2, nv))
        return out
    if m == "operator=":
        out = []
        for s2, vs in eng.ev_args(None, dict(e, a=args), args, s, fr):
            s2.store[l] = eng.argval(s2, vs[0])
            out.append((s2, s2.store[l]))
        return out
    if m == "base" and is_rit(v):
        cs, i = rit_index(eng, s, v)
        return None if i is None else [(s, it_at(v[2][1], cs, len(cs) - i))]
    if m == "base":
        return [(s, v)]
    return None


def str_op(eng, e, s, fr, l, v, cls, m):
    cs = chars(v)
    args = [a for a in e.get("a") or [] if a.get("k") != "defarg"]
    if m == "data" and not args and cs is not None and False:
        return None
    out = []

    def args_():
        for s2, vs in eng.ev_args(None, dict(e, a=args), args, s, fr):
            yield s2, [eng.argval(s2, x, a.get("t")) for x, a in zip(vs, args)]
    if cs is None:
        return None
    if m in ("size", "length"):
        return [(s, c(len(cs)))]
    if m == "empty":
        return [(s, c(not cs))]
    if m in ("begin", "cbegin", "end", "cend", "rbegin", "crbegin", "rend", "crend") and l is not None and s.store.get(l) == v:
        cs = it_cells(eng, s, l)
        n = m[1:] if m[0] == "c" else m
        return [(s, it_at(l, cs, 0) if n == "begin" else it(l, END) if n == "end" else rit_at(l, cs, 0) if n == "rbegin" else op("riter", ("addr", l), END))]
    if m == "erase":
        for s2, vs in args_():
            if vs and is_it(vs[0]) and len(vs) < 3:
                i = it_index(eng, s2, vs[0])[1]
                j = it_index(eng, s2, vs[1])[1] if len(vs) > 1 else None if i is None else i + 1
                if i is None or j is None or not i <= j <= len(cs):
                    return None
                eng.write(s2, l, mkstr(cs[:i] + cs[j:]), e, fr)
                out.append((s2, it(l, END) if j >= len(cs) else it(l, ("ref", ("I", l, c(i))))))
                continue
            if any(x[0] != "c" for x in vs) or len(vs) > 2:
                return None
            i = vs[0][1] if vs else 0
            n = vs[1][1] if len(vs) > 1 else NPOS
            if i > len(cs):
                s2.events = s2.events + (bad_index(eng, e, l, c(i), len(cs), s2),)
                out.append((s2, op("bad:erase")))
                continue
            eng.write(s2, l, mkstr(cs[:i] + cs[i + n:]), e, fr)
            out.append((s2, ("ref", l)))
        return out
    if m == "resize":
        for s2, vs in args_():
            if vs[0][0] != "c" or not 0 <= vs[0][1] <= 4096:
                return None
            n = vs[0][1]
            eng.write(s2, l, mkstr(cs[:n] + [vs[1] if len(vs) > 1 else ZERO] * (n - len(cs))), e, fr)
            out.append((s2, op("void")))
        return out
    if m == "pop_back" and cs:
        eng.write(s, l, mkstr(cs[:-1]), e, fr)
        return [(s, op("void"))]
    if m in ("reserve", "shrink_to_fit"):
        return [(s, op("void")) for s, _ in args_()]
    if m == "clear":
        eng.write(s, l, ("s", ""), e, fr)
        return [(s, op("void"))]
    if m in ("front", "back"):
        return [(s, (cs[0] if m == "front" else cs[-1]) if cs else op("bad:" + m))]
    if m in ("operator[]", "at"):
        for s2, (i,) in args_():
            if i[0] != "c":
                return None
            if i[1] == len(cs):
                out.append((s2, ZERO))
            elif not 0 <= i[1] < len(cs):
                s2.events = s2.events + (bad_index(eng, e, l, i, len(cs), s2),)
                out.append((s2, op("bad:index", i)))
            else:
                out.append((s2, cs[i[1]]))
        return out
    if m == "push_back":
        for s2, (x,) in args_():
            eng.write(s2, l, mkstr(cs + [x]), e, fr)
            out.append((s2, op("void")))
        return out
    if m in ("append", "operator+="):
        for s2, vs in args_():
            x = vs[0]
            if len(vs) == 1 and strip_t(args[0].get("t", "")) == "char":
                add_ = [x]
            elif len(vs) == 1:
                add_ = chars(x)
            elif len(vs) == 2 and vs[0][0] == "c" and vs[1][0] != "s":
                add_ = [vs[1]] * vs[0][1] if vs[0][1] < 100 else None
            elif len(vs) == 2 and chars(vs[0]) is not None and vs[1][0] == "c":
                add_ = chars(vs[0])[:vs[1][1]]
            elif len(vs) == 3 and chars(vs[0]) is not None and vs[1][0] == "c" and vs[2][0] == "c":
                add_ = chars(vs[0])[vs[1][1]:vs[1][1] + vs[2][1]]
            else:
                add_ = None
            if add_ is None:
                return None
            eng.write(s2, l, mkstr(cs + add_), e, fr)
            out.append((s2, ("ref", l)))
        return out
    if m == "assign":
        for s2, vs in args_():
            ns = [x[1] if x[0] == "c" else None for x in vs]
            a = chars(vs[0]) if vs else None
            if len(vs) == 1:
                new = a
            elif len(vs) == 2 and a is None and ns[0] is not None and ns[0] < 100:
                new = [vs[1]] * ns[0]
            elif len(vs) == 2 and ns[1] is not None and a is not None:
                new = a[:ns[1]]
            elif len(vs) == 3 and a is not None and None not in ns[1:] and ns[1] <= len(a):
                new = a[ns[1]:ns[1] + ns[2]]
            else:
                new = None
            if new is None:
                return None
            eng.write(s2, l, mkstr(list(new)), e, fr)
            out.append((s2, ("ref", l)))
        return out
    if m == "insert":
        for s2, vs in args_():
            if not vs or vs[0][0] != "c" or len(vs) not in (2, 3):
                return None
            i = vs[0][1]
            add_ = chars(vs[1]) if len(vs) == 2 else [vs[2]] * vs[1][1] if vs[1][0] == "c" and vs[1][1] < 100 and vs[2][0] != "s" else None
            if add_ is None:
                return None
            if i > len(cs):
                s2.events = s2.events + (bad_index(eng, e, l, c(i), len(cs), s2),)
                out.append((s2, op("bad:insert")))
                continue
            eng.write(s2, l, mkstr(cs[:i] + add_ + cs[i:]), e, fr)
            out.append((s2, ("ref", l)))
        return out
    if m == "replace":
        for s2, vs in args_():
            if len(vs) != 3 or vs[0][0] != "c" or vs[1][0] != "c" or chars(vs[2]) is None:
                return None
            i, n = vs[0][1], vs[1][1]
            if i > len(cs):
                s2.events = s2.events + (bad_index(eng, e, l, c(i), len(cs), s2),)
                out.append((s2, op("bad:replace")))
                continue
            eng.write(s2, l, mkstr(cs[:i] + chars(vs[2]) + cs[i + n:]), e, fr)
            out.append((s2, ("ref", l)))
        return out
    if m == "substr":
        for s2, vs in args_():
            if any(x[0] != "c" for x in vs):
                return None
            i = vs[0][1] if vs else 0
            n = vs[1][1] if len(vs) > 1 else NPOS
            if i > len(cs):
                s2.events = s2.events + (bad_index(eng, e, l, c(i), len(cs), s2),)
                out.append((s2, op("bad:substr")))
            else:
                out.append((s2, mkstr(cs[i:i + n])))
        return out
    if m in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"):
        for s2, vs in args_():
            pat = [vs[0]] if strip_t(args[0].get("t", "")) == "char" else chars(vs[0])
            if pat is None or any(x[0] != "c" for x in vs[1:]):
                return None
            start = vs[1][1] if len(vs) > 1 else None
            r = str_find(eng, s2, cs, pat, m, start)
            if r is None:
                return None
            out += r
        return out
    if m == "compare":
        for s2, vs in args_():
            if len(vs) == 1 and chars(vs[0]) is not None:
                o = chars(vs[0])
            elif len(vs) == 3 and vs[0][0] == "c" and vs[1][0] == "c" and chars(vs[2]) is not None:
                o = chars(vs[2])
                cs2 = cs[vs[0][1]:vs[0][1] + vs[1][1]]
                for s3, v3 in equal_val(eng, s2, mkstr(cs2), mkstr(o), "", fr, e):
                    if v3 == ONE:
                        out.append((s3, ZERO))
                    else:
                        out.append((s3, eng.typed(op("cmpne", mkstr(cs2), mkstr(o)), "int")))
                        s3.facts.assume(mk_eq0(out[-1][1]), False)
                continue
            else:
                return None
            if eng.mem and not (v[0] == "s" and vs[0][0] == "s"):
                import mem
                out += [(s3, c(d)) for s3, d in mem.compare_chars(eng, s2, cs, o)]
                continue
            for s3, v3 in equal_val(eng, s2, mkstr(cs), mkstr(o), "", fr, e):
                if v3 == ONE:
                    out.append((s3, ZERO))
                else:
                    if v[0] == "s" and vs[0][0] == "s":
                        out.append((s3, c(-1 if v[1] < vs[0][1] else 1)))
                    else:
                        r = eng.typed(op("cmpne", mkstr(cs), mkstr(o)), "int")
                        s3.facts.assume(mk_eq0(r), False)
                        out.append((s3, r))
        return out
    if m in ("begin", "cbegin", "end", "cend"):
        return None
    if m == "pop_back" and cs:
        eng.write(s, l, mkstr(cs[:-1]), e, fr)
        return [(s, op("void"))]
    if m in ("erase",):
        for s2, vs in args_():
            if any(x[0] != "c" for x in vs):
                return None
            i = vs[0][1] if vs else 0
            n = vs[1][1] if len(vs) > 1 else NPOS
            eng.write(s2, l, mkstr(cs[:i] + cs[i + n:]), e, fr)
            out.append((s2, ("ref", l)))
        return out
    if m == "operator=":
        for s2, vs in args_():
            eng.write(s2, l, vs[0], e, fr)
            out.append((s2, ("ref", l)))
        return out
    if m.startswith("operator basic_string_view") or m == "operator std::basic_string_view":
        return [(s, v)]
    return None


def str_find(eng, s, cs, pat, m, start):
    n, k = len(cs), len(pat)
    if m == "find":
        idx = range(start or 0, n - k + 1)
        match = lambda i: [(cs[i + j], pat[j]) for j in range(k)]
    elif m == "rfind":
        hi = n - k if start is None else min(start, n - k)
        idx = range(hi, -1, -1)
        match = lambda i: [(cs[i + j], pat[j]) for j in range(k)]
    else:
        idx = range(start or 0, n) if "first" in m else range(n - 1 if start is None else min(start, n - 1), -1, -1)
        match = None
    out, cur = [], [s]
    for i in idx:
        nxt = []
        for s1 in cur:
            if match is not None:
                rs = conj(eng, s1, match(i), lambda st, x: [(st, eng.compare(st, "==", x[0], x[1], "char"))])
            else:
                # member of the set?
                rs, c2 = [], [s1]
                for p in pat:
                    n2 = []
                    for s2 in c2:
                        for s3, tv in eng.branch(s2, eng.compare(s2, "==", cs[i], p, "char")):
                            if tv:
                                rs.append((s3, ONE))
                            else:
                                n2.append(s3)
                    c2 = n2
                rs += [(s2, ZERO) for s2 in c2]
                if "not" in m:
                    rs = [(s2, ONE if v == ZERO else ZERO) for s2, v in rs]
            for s2, v in rs:
                if v == ONE:
                    out.append((s2, c(i)))
                else:
                    nxt.append(s2)
        cur = nxt
    return out + [(s1, c(NPOS)) for s1 in cur]


# ---------------------------------------------------------------- algorithms
STREAMS = ("basic_ostringstream", "basic_stringstream", "basic_ostream")
MANIP = {"std::hex": "x", "std::dec": "d", "std::oct": "o", "std::uppercase": "U", "std::nouppercase": "u", "std::boolalpha": "B",
         "std::noboolalpha": "b"}


def pieces(v):
    """(flags, pieces) of a string stream value, or None"""
    if v is None or v[0] != "op":
        return None
    if v[1] == "ss":
        return v[2][1], list(v[3:])
    if v[1] == "empty":
        return "", []
    return None


def join(ps):
    """concatenation of string values"""
    if all(chars(x) is not None for x in ps):
        return mkstr([t for x in ps for t in chars(x)])
    out = []
    for x in ps:
        if x[0] == "op" and x[1] == "concat":
            out += list(x[2:])
        else:
            out.append(x)
    res = []
    for x in out:
        if chars(x) == []:
            continue
        if res and chars(res[-1]) is not None and chars(x) is not None:
            res[-1] = mkstr(chars(res[-1]) + chars(x))
        else:
            res.append(x)
    return res[0] if len(res) == 1 else op("concat", *res)


def stream_put(eng, s, l, v, x, t, node):
    """insert the value x of type t; False when not understood"""
    ps = pieces(v)
    if ps is None:
        return False
    flags, out = ps
    n = node
    while n.get("k") in ("addr", "unop", "cast") and n.get("e"):
        n = n["e"]
    if x[0] == "op" and x[1] in ("setw", "setfill") and x[2][0] == "c":
        k = x[1][3]
        flags = re.sub(r"\{%s\d+\}" % k, "", flags) + "{%s%d}" % (k, x[2][1])
    elif n.get("k") == "ref" and n.get("fn") in MANIP:
        f = MANIP[n["fn"]]
        flags = "".join(y for y in flags if not (f in "xdo" and y in "xdo") and y.lower() != f.lower()) + f
    else:
        t = strip_t(t or "")
        if t in ("char", "signed char", "unsigned char"):
            y = mkstr([x])
        elif chars(x) is not None:
            y = x
        elif x[0] == "c" and ("int" in t or "long" in t or "short" in t or t == "bool"):
            k = x[1]
            if "x" in flags or "o" in flags:
                if k < 0:
                    k += 1 << (64 if "long" in t else 32)
                txt = ("%x" if "x" in flags else "%o") % k
                txt = txt.upper() if "U" in flags else txt
            else:
                txt = "%d" % k
            y = ("s", txt)
        elif t.startswith("std::basic_string") or t in ("char *", "const char *") or "char[" in t.replace(" ", ""):
            y = x
        else:
            y = op("text", ("s", t), ("s", flags), x)
        w = re.search(r"\{w(\d+)\}", flags)
        if w is not None and int(w.group(1)):
            if chars(y) is None:
                return False
            fill = re.search(r"\{f(\d+)\}", flags)
            y = mkstr([c(int(fill.group(1)) if fill else 32)] * (int(w.group(1)) - len(chars(y))) + chars(y))
            flags = flags.replace(w.group(0), "")
        out = out + [y]
    s.store[l] = op("ss", ("s", flags), *out)
    return True


def stream_op(eng, e, s, fr, l, v, m, args):
    ps = pieces(v)
    if ps is None:
        return None
    if m == "str" and not args:
        return [(s, join(ps[1]) if ps[1] else ("s", ""))]
    if m == "operator<<":
        out = []
        for s2, vs in eng.ev_args(None, dict(e, a=args), args, s, fr):
            x = eng.argval(s2, vs[0], args[0].get("t"))
            if not stream_put(eng, s2, l, s2.store.get(l, v), x, args[0].get("t"), args[0]):
                return None
            out.append((s2, ("ref", l)))
        return out
    return None


def bitset_op(eng, e, s, fr, l, v, m, args):
    t = strip_t((e.get("obj") or {}).get("t") or "").rstrip("*")
    a = targs(t)
    try:
        n = int("".join(ch for ch in a[0] if ch.isdigit()))
    except (IndexError, ValueError):
        return None
    if v[0] == "op" and v[1] == "empty":
        v = op("bitset", *([ZERO] * n))
        s.store[l] = v
    if v[0] != "op" or v[1] != "bitset":
        return None
    bs = list(v[2:])
    out = []
    for s2, vs in eng.ev_args(None, dict(e, a=args), args, s, fr):
        xs = [eng.argval(s2, x, y.get("t")) for x, y in zip(vs, args)]
        if m == "size":
            out.append((s2, c(n)))
            continue
        if m in ("set", "reset", "flip") and not xs:
            nb = [ONE if m == "set" else ZERO if m == "reset" else not_(b) for b in bs]
            s2.store[l] = op("bitset", *nb)
            out.append((s2, ("ref", l)))
            continue
        if m in ("any", "none", "all", "count") and all(b[0] == "c" for b in bs):
            k = sum(b[1] for b in bs)
            out.append((s2, c({"any": k > 0, "none": k == 0, "all": k == n, "count": k}[m])))
            continue
        if not xs or xs[0][0] != "c":
            return None
        i = xs[0][1]
        if not 0 <= i < n:
            s2.events = s2.events + (bad_index(eng, e, l, xs[0], n, s2),)
            out.append((s2, op("bad:index", xs[0])))
            continue
        if m == "test" or (m == "operator[]" and "reference" not in (e.get("t") or "")):
            out.append((s2, bs[i]))
        elif m in ("set", "reset", "flip"):
            nb = list(bs)
            nb[i] = (xs[1] if len(xs) > 1 else ONE) if m == "set" else ZERO if m == "reset" else not_(bs[i])
            s2.store[l] = op("bitset", *nb)
            out.append((s2, ("ref", l)))
        elif m == "operator[]":
            out.append((s2, op("bitref", ("addr", l), xs[0])))
        else:
            return None
    return out


def algorithm(eng, e, fn, s, vs, vals, args, fr):
    """std algorithm over iterators with known elements; None otherwise"""
    m = fn.rsplit("::", 1)[1]
    if m == "operator<<" and len(vals) == 2 and vs[0][0] == "ref":
        if stream_put(eng, s, vs[0][1], eng.read(s, vs[0][1], None), vals[1], args[1].get("t"), args[1]):
            return [(s, vs[0])]
        return None
    if m in ("next", "prev", "advance") and vals and is_it(vals[0]):
        k = vals[1][1] if len(vals) > 1 and vals[1][0] == "c" else 1 if len(vals) == 1 or args[1].get("k") == "defarg" else None
        if k is None:
            return None
        nv = it_move(eng, s, vals[0], -k if m == "prev" else k)
        if m == "advance":
            s.store[vs[0][1]] = nv
            return [(s, op("void"))]
        return [(s, nv)]
    if m in ("operator-", "distance") and len(vals) == 2 and is_rit(vals[0]) and is_rit(vals[1]):
        i, j = rit_index(eng, s, vals[0])[1], rit_index(eng, s, vals[1])[1]
        if i is None or j is None:
            return None
        return [(s, c(i - j if m == "operator-" else j - i))]
    if m in ("next", "prev", "advance") and vals and is_rit(vals[0]):
        k = vals[1][1] if len(vals) > 1 and vals[1][0] == "c" else 1 if len(vals) == 1 or args[1].get("k") == "defarg" else None
        if k is None:
            return None
        nv = rit_move(eng, s, vals[0], -k if m == "prev" else k)
        if m == "advance":
            s.store[vs[0][1]] = nv
            return [(s, op("void"))]
        return [(s, nv)]
    if m == "distance" and is_it(vals[0]):
        xs = span(eng, s, vals[0], vals[1])
        return None if xs is None else [(s, c(len(xs)))]
    if m == "back_inserter":
        return [(s, op("backins", ("addr", vs[0][1]) if vs[0][0] == "ref" else vals[0]))]
    if len(vals) < 2 or not is_it(vals[0]) and not (is_rit(vals[0]) and m in ("equal", "all_of", "any_of", "none_of", "count", "count_if", "for_each")):
        return None
    xs = span(eng, s, vals[0], vals[1])
    if xs is None:
        return None
    if m == "equal" and len(vals) >= 3 and (is_it(vals[2]) or is_rit(vals[2])):
        ys, j = it_index(eng, s, vals[2]) if is_it(vals[2]) else rit_index(eng, s, vals[2])
        if j is None:
            return None
        ys = (ys if is_it(vals[2]) else ys[::-1])[j:]
        rest = vals[3:]
        if rest and (is_it(rest[0]) or is_rit(rest[0])):
            ys = span(eng, s, vals[2], rest[0])
            rest = rest[1:]
            if ys is None:
                return None
            if len(ys) != len(xs):
                return [(s, ZERO)]
        if len(ys) < len(xs):
            s.events = s.events + (bad_index(eng, e, vals[2][2][1], END, 0, s),)
            return [(s, eng.typed(op("bad:end"), "bool"))]
        et = (eng.celltype.get(xs[0][1]) or "char") if xs else ""
        return conj(eng, s, list(zip(xs, ys)), lambda s, x: invoke(eng, s, rest[0], [x[0], x[1]], fr, e, "bool") if rest else equal(eng, s, x[0], x[1], et, fr, e))
    l = vals[0][2][1]
    et = eng.celltype.get(xs[0][1]) if xs else ""
    if cells(eng, s, l) is None:
        et = "char"
        if m not in ("transform", "copy", "all_of", "any_of", "none_of", "find", "find_if", "find_if_not", "count", "count_if", "for_each", "distance", "equal"):
            return None
    if m in ("copy", "transform") and len(vals) == (3 if m == "copy" else 4) and is_it(vals[2]):
        # into existing elements
        ds, j = it_index(eng, s, vals[2])
        if j is None or j + len(xs) > len(ds):
            return None
        cur = [s]
        for i, x in enumerate(xs):
            nxt = []
            for s1 in cur:
                for s2, v in invoke(eng, s1, vals[3], [x], fr, e, et) if m == "transform" else [(s1, load(eng, s1, x, et))]:
                    if et == "char":
                        v = eng.cast(s2, v, "char", "int")
                    eng.write(s2, ds[j + i][1], v, e, fr)
                    nxt.append(s2)
            cur = nxt
        return [(s1, it_at(vals[2][2][1], ds, j + len(xs))) for s1 in cur]
    if m in ("sort", "stable_sort"):
        cmp = vals[2] if len(vals) > 2 else None
        states = [(s, [])]
        for x in xs:
            nxt = []
            for s1, acc in states:
                # insert x after all elements that are not greater
                cur = [(s1, len(acc))]
                while cur:
                    s2, i = cur.pop()
                    if i == 0:
                        nxt.append((s2, [x] + acc))
                        continue
                    prev = acc[i - 1]
                    rs = invoke(eng, s2, cmp, [x, prev], fr, e) if cmp is not None else less(eng, s2, x, prev, et, fr, e)
                    for s3, v in rs:
                        for s4, tv in eng.branch(s3, eng.as_bool(v)):
                            if tv:
                                cur.append((s4, i - 1))
                            else:
                                nxt.append((s4, acc[:i] + [x] + acc[i:]))
            states = nxt
        out = []
        for s1, acc in states:
            cs, i = it_index(eng, s1, vals[0])
            set_cells(eng, s1, l, cs[:i] + acc + cs[i + len(acc):], e, fr)
            out.append((s1, op("void")))
        return out
    if m == "reverse":
        cs, i = it_index(eng, s, vals[0])
        set_cells(eng, s, l, cs[:i] + xs[::-1] + cs[i + len(xs):], e, fr)
        return [(s, op("void"))]
    if m in ("find", "find_if", "find_if_not", "any_of", "all_of", "none_of", "count", "count_if"):
        out = []
        cur = [(s, 0)]
        for x in xs:
            nxt = []
            for s1, n in cur:
                rs = equal(eng, s1, x, vs[2], et, fr, e) if m in ("find", "count") else invoke(eng, s1, vals[2], [x], fr, e)
                for s2, v in rs:
                    for s3, tv in eng.branch(s2, eng.as_bool(v)):
                        if m in ("all_of", "find_if_not"):
                            tv = not tv
                        if m in ("count", "count_if"):
                            nxt.append((s3, n + tv))
                        elif tv:
                            out.append((s3, it(l, x) if m.startswith("find") else c(m == "any_of")))
                        else:
                            nxt.append((s3, n))
            cur = nxt
        for s1, n in cur:
            out.append((s1, vals[1] if m.startswith("find") else c(n) if m.startswith("count") else c(m in ("all_of", "none_of"))))
        return out
    if m in ("accumulate",):
        cur = [(s, vals[2])]
        for x in xs:
            nxt = []
            for s1, acc in cur:
                if len(vals) > 3:
                    nxt += invoke(eng, s1, vals[3], [acc, x], fr, e, e.get("t"))
                else:
                    nxt.append((s1, add(acc, load(eng, s1, x, et))))
            cur = nxt
        return cur
    if m == "for_each":
        cur = [s]
        for x in xs:
            cur = [s2 for s1 in cur for s2, _ in invoke(eng, s1, vals[2], [x], fr, e, "void")]
        return [(s1, vals[2]) for s1 in cur]
    if m in ("copy", "move", "transform", "copy_if") and vals[2][0] == "op" and vals[2][1] == "backins":
        d = vals[2][2][1]
        dt = None
        cur = [s]
        for x in xs:
            nxt = []
            for s1 in cur:
                if m == "transform":
                    rs = [(s2, v, True) for s2, v in invoke(eng, s1, vals[3], [x], fr, e, "")]
                elif m == "copy_if":
                    rs = [(s3, x, tv) for s2, v in invoke(eng, s1, vals[3], [x], fr, e) for s3, tv in eng.branch(s2, eng.as_bool(v))]
                else:
                    rs = [(s1, x, True)]
                for s2, v, keep in rs:
                    if keep:
                        text = chars(s2.store.get(d))
                        if text is not None:
                            v = load(eng, s2, v)
                            eng.write(s2, d, mkstr(text + [eng.cast(s2, v, "char", "int")]), e, fr)
                            nxt.append(s2)
                            continue
                        cs = cells(eng, s2, d)
                        if cs is None:
                            return None
                        set_cells(eng, s2, d, cs + [put(eng, s2, v, et if m != "transform" else "")], e, fr)
                    nxt.append(s2)
            cur = nxt
        return [(s1, vals[2]) for s1 in cur]
    if m in ("max_element", "min_element"):
        if not xs:
            return [(s, vals[1])]
        cur = [(s, xs[0])]
        for x in xs[1:]:
            nxt = []
            for s1, best in cur:
                a, b = (best, x) if m == "max_element" else (x, best)
                rs = invoke(eng, s1, vals[2], [a, b], fr, e) if len(vals) > 2 else less(eng, s1, a, b, et, fr, e)
                for s2, v in rs:
                    for s3, tv in eng.branch(s2, eng.as_bool(v)):
                        nxt.append((s3, x if tv else best))
            cur = nxt
        return [(s1, it(l, b)) for s1, b in cur]
    if m in ("lower_bound", "upper_bound"):
        out, cur = [], [s]
        for x in xs:
            nxt = []
            for s1 in cur:
                if m == "lower_bound":
                    rs = invoke(eng, s1, vals[3], [x, vs[2]], fr, e) if len(vals) > 3 else less(eng, s1, x, vs[2], et, fr, e)
                else:
                    rs = invoke(eng, s1, vals[3], [vs[2], x], fr, e) if len(vals) > 3 else less(eng, s1, vs[2], x, et, fr, e)
                for s2, v in rs:
                    for s3, tv in eng.branch(s2, eng.as_bool(v)):
                        if tv == (m == "upper_bound"):
                            out.append((s3, it(l, x)))
                        else:
                            nxt.append(s3)
            cur = nxt
        return out + [(s1, vals[1]) for s1 in cur]
    return None
