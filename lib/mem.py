"""Byte memory: blocks of known size whose bytes are terms of the bit-provenance domain.

A pointer is ("ptr", base, offset) with a constant offset.  A base is a block ("M", n), a container location (string or
vector of scalars of known shape), or a scalar ("S", location, type).  Loads and stores of any scalar type assemble and
split little-endian bytes, so a value written in one type or place is recognised when it is read back in another.  An
access outside its base, or to a released block, is recorded as an event ("oob", "dead")."""
import struct

import bits as _bits
import seq as _seq
from absint import HANDLERS, Event, Unsupported
from dom import NULL, ONE, ZERO, c, is_ptr, mk_ge0, op, strip_t, sub

FLOATS = {"float": ("<f", 4), "double": ("<d", 8)}


def stype(eng, t):
    """scalar type name (enums by their underlying type), or None"""
    t = strip_t(t or "")
    if t in eng.prog.enums:
        t = strip_t(eng.prog.enums[t].get("ut") or "int")
    if t in _bits.WIDTH or t in FLOATS or t.endswith("*"):
        return t
    return None


def size(eng, t):
    t = stype(eng, t)
    if t is None:
        return None
    if t.endswith("*"):
        return 8
    return max(1, _bits.WIDTH[t][0] // 8)


def pointee(t):
    t = strip_t(t or "")
    t = t[:-1].rstrip() if t.endswith("*") else t
    return strip_t(t)


def new_block(eng, s, n, name="m"):
    eng.n += 1
    b = ("M", eng.n)
    s.store[b] = op("blk", *[eng.typed(("v", "%s%d.%d" % (name, eng.n, i)), "unsigned char") for i in range(n)])
    return b


def block_of(eng, s, bytes_):
    eng.n += 1
    b = ("M", eng.n)
    s.store[b] = op("blk", *bytes_)
    return b


def event(eng, s, kind, base, off, n, e=None):
    s.events = s.events + (Event(kind, None, base, (c(off), c(n)), None, (e or {}).get("l", 0) or eng.line, eng.file, e),)


# ------------------------------------------------------------------ bytes of a base
def _cells(eng, s, base):
    v = s.store.get(base)
    if v is not None and v[0] == "ref":
        return _cells(eng, s, v[1])
    cs = _seq.chars(v)
    if cs is not None:
        return "str", cs, base
    if v is not None and v[0] == "op" and v[1] == "fill" and v[2][0] == "c" and v[2][1] <= 4096 and len(v) > 3:
        return "str", [v[3]] * v[2][1], base
    cs = _seq.cells(eng, s, base, eng.celltype.get(("cont", base)))
    if cs is not None:
        return "seq", cs, base
    return None, None, base


def extent(eng, s, base):
    if base[0] == "M":
        return len(s.store[base]) - 2
    if base[0] == "S":
        return size(eng, base[2])
    k, cs, _ = _cells(eng, s, base)
    if k == "str":
        return len(cs)
    if k == "seq":
        return len(cs) * esize(eng, s, cs, base)
    raise Unsupported("memory of unknown shape")


def esize(eng, s, cs, base):
    if not cs:
        return 1
    t = eng.celltype.get(cs[0][1]) or eng.ttype.get(s.store.get(cs[0][1]))
    n = size(eng, t or "char")
    if n is None:
        raise Unsupported("elements of type %s as bytes" % t)
    return n


def split(eng, s, v, t):
    """bytes of a value"""
    t = stype(eng, t)
    n = size(eng, t)
    if v[0] == "f" and t in FLOATS:
        try:
            return [c(b) for b in struct.pack(FLOATS[t][0], float(v[1]))]
        except (ValueError, OverflowError):
            pass
    if v[0] == "c":
        k = v[1] % (1 << (8 * n))
        return [c((k >> (8 * i)) & 255) for i in range(n)]
    if not t.endswith("*"):
        b = _bits.tobits(eng, s.facts, v, 8 * n)
        if b is None:
            eng.typed(v, t)
            b = _bits.tobits(eng, s.facts, v, 8 * n)
        if b is not None:
            return [_bits.mk(eng, s.facts, b[8 * i:8 * i + 8], "unsigned char") for i in range(n)]
    return [eng.typed(op("byteof", v, c(i)), "unsigned char") for i in range(n)]


def join(eng, s, bs, t):
    t = stype(eng, t)
    if all(b[0] == "op" and b[1] == "byteof" and b[3] == c(i) and b[2] == bs[0][2] for i, b in enumerate(bs)) and \
            (t.endswith("*") or len(bs) > 1):
        return bs[0][2]
    if t.endswith("*"):
        if all(b == ZERO for b in bs):
            return NULL
        raise Unsupported("pointer assembled from bytes")
    out = []
    for b in bs:
        x = _bits.tobits(eng, s.facts, b, 8)
        if x is None:
            raise Unsupported("byte %s" % (b,))
        out += x
    if t in FLOATS and all(not x[1] for x in out):
        k = sum(x[0] << i for i, x in enumerate(out))
        return ("f", repr(struct.unpack(FLOATS[t][0], k.to_bytes(FLOATS[t][1], "little"))[0]))
    if t == "bool":
        if all(x == _bits.F0 for x in out[1:]):
            return _bits.mk(eng, s.facts, out[:1], "bool")
        v = _bits.mk(eng, s.facts, out, "unsigned char")
        return c(v[1] != 0) if v[0] == "c" else eng.compare(s, "!=", v, ZERO, "unsigned char")
    return _bits.mk(eng, s.facts, out, t)


def get(eng, s, base, off, n, e=None):
    if n == 0:
        return []
    if s.ghost.get(("dead", base)) is not None:
        event(eng, s, "dead", base, off, n, e)
    m = extent(eng, s, base)
    if off < 0 or off + n > m:
        event(eng, s, "oob", base, off, n, e)
        return [get(eng, s, base, off + i, 1, e)[0] if 0 <= off + i < m else eng.fresh("oob", "unsigned char") for i in range(n)]
    if base[0] == "M":
        return list(s.store[base][2 + off:2 + off + n])
    if base[0] == "S":
        return split(eng, s, eng.read(s, base[1], base[2]), base[2])[off:off + n]
    k, cs, b = _cells(eng, s, base)
    if k == "str":
        return [split(eng, s, x, "char")[0] for x in cs[off:off + n]]
    z = esize(eng, s, cs, base)
    out = []
    for i in range(off // z, (off + n - 1) // z + 1):
        l = cs[i][1]
        t = eng.celltype.get(l) or eng.ttype.get(s.store.get(l)) or "char"
        out += split(eng, s, eng.read(s, l, t), t)
    d = off - off // z * z
    return out[d:d + n]


def put(eng, s, base, off, bs, e=None):
    n = len(bs)
    if n == 0:
        return
    if s.ghost.get(("dead", base)) is not None:
        event(eng, s, "dead", base, off, n, e)
    m = extent(eng, s, base)
    if off < 0 or off + n > m:
        event(eng, s, "oob", base, off, n, e)
        for i in range(n):
            if 0 <= off + i < m:
                put(eng, s, base, off + i, [bs[i]], e)
        return
    if base[0] == "M":
        v = s.store[base]
        s.store[base] = v[:2 + off] + tuple(bs) + v[2 + off + n:]
        return
    if base[0] == "S":
        old = split(eng, s, eng.read(s, base[1], base[2]), base[2]) if n < m else bs
        new = old[:off] + list(bs) + old[off + n:]
        eng.write(s, base[1], join(eng, s, new, base[2]))
        return
    k, cs, b = _cells(eng, s, base)
    if k == "str":
        new = list(cs)
        for i, x in enumerate(bs):
            new[off + i] = join(eng, s, [x], "char")
        s.store[b] = _seq.mkstr(new)
        return
    z = esize(eng, s, cs, base)
    for i in range(off // z, (off + n - 1) // z + 1):
        l = cs[i][1]
        t = eng.celltype.get(l) or eng.ttype.get(s.store.get(l)) or "char"
        cur = split(eng, s, eng.read(s, l, t), t)
        for j in range(z):
            p = i * z + j - off
            if 0 <= p < n:
                cur[j] = bs[p]
        eng.write(s, l, join(eng, s, cur, t))


def load(eng, s, loc, t=None):
    _, base, off, ty = loc
    n = size(eng, ty)
    if n is None:
        raise Unsupported("load of type %s from bytes" % ty)
    return join(eng, s, get(eng, s, base, off, n), ty)


def store(eng, s, loc, v):
    _, base, off, ty = loc
    put(eng, s, base, off, split(eng, s, v, ty))


def const(eng, s, t):
    """constant value of an integer term, or None"""
    if t[0] == "c":
        return t[1]
    if t[0] in ("eq0", "ge0", "not"):
        v = s.facts.truth(t)
        return None if v is None else int(v)
    b = _bits.tobits(eng, s.facts, t, 64)
    if b is not None and all(not x[1] for x in b):
        n = sum(x[0] << i for i, x in enumerate(b))
        return n - (1 << 64) if n >> 63 else n
    return None


def cint(eng, s, t, what):
    n = const(eng, s, t)
    if n is None:
        x = Unsupported("%s %s is not constant" % (what, t if len(repr(t)) < 200 else "..."))
        x.state = s
        raise x
    return n


def move(eng, s, p, k, t, sign=1):
    """p + k elements of pointer type t"""
    z = 1 if pointee(t) == "void" else size(eng, pointee(t))
    if z is None:
        raise Unsupported("pointer arithmetic on %s" % t)
    return ("ptr", p[1], p[2] + sign * z * cint(eng, s, k, "pointer offset"))


def as_ptr(eng, s, v, t):
    """pointer value as a byte pointer; t is the static pointer type"""
    if v is None or v[0] == "ptr":
        return v
    if v[0] == "s":
        l = eng.temp()
        s.store[l] = _seq.mkstr((_seq.chars(v) or []) + [ZERO])
        return ("ptr", l, 0)
    if v[0] == "addr":
        if v[1][0] == "P":
            return ("ptr", v[1][1], v[1][2])
        if size(eng, pointee(t)) is not None:
            x = s.store.get(v[1])
            if x is not None and x[0] == "ptr" and not pointee(t).endswith("*"):
                return x
            return ("ptr", ("S", v[1], pointee(t)), 0)
    return v


def diff(eng, s, x, y, t):
    if x[1] != y[1]:
        raise Unsupported("difference of pointers into different objects")
    return c((x[2] - y[2]) // (size(eng, pointee(t)) or 1))


def static_ptr(e):
    """static pointer type of an argument before the conversion to void*"""
    while e.get("k") == "cast" and strip_t(e.get("t") or "").rstrip("*").strip() in ("void", "const void") and is_ptr(e["e"].get("t") or ""):
        e = e["e"]
    return e.get("t") or ""


def _args(eng, e, st, fr):
    for s, vs in eng.evs(e["a"], st, fr):
        eng.line = e.get("l", 0)
        yield s, [as_ptr(eng, s, eng.load(s, v, a.get("t")) if not eng.is_record(a.get("t") or "") else v, static_ptr(a)) if is_ptr(a.get("t") or "") else
                  (eng.load(s, v, a.get("t")) if v is not None and v[0] == "ref" and not eng.is_record(a.get("t") or "") else v)
                  for v, a in zip(vs, e["a"])]


def h_memcpy(eng, e, st, fr):
    out = []
    eng.callees.add(e["fn"])
    for s, (d, x, n) in _args(eng, e, st, fr):
        n = cint(eng, s, n, "copied length")
        if n < 0 or n > 1 << 40:
            event(eng, s, "oob", d, 0, n, e)
        elif d[0] == "addr" and x[0] == "addr":
            t = pointee(static_ptr(e["a"][0]))
            eng.copy_object(s, x[1], d[1], t)
        elif n == 0:
            pass
        elif d[0] == "ptr" and x[0] == "ptr":
            if (d[1] == x[1]) and d[2] != x[2] and abs(d[2] - x[2]) < n and "memcpy" in e["fn"]:
                event(eng, s, "overlap", d[1], d[2], n, e)
            put(eng, s, d[1], d[2], get(eng, s, x[1], x[2], n, e), e)
        elif NULL in (d, x):
            event(eng, s, "oob", d, 0, n, e)
        else:
            u = Unsupported("memcpy between %s and %s" % (d[:1], x[:1]))
            u.state = s
            raise u
        out.append((s, d))
    return out


def h_memset(eng, e, st, fr):
    out = []
    for s, (d, x, n) in _args(eng, e, st, fr):
        n = cint(eng, s, n, "length")
        if d[0] != "ptr" and n:
            raise Unsupported("memset of %s" % (d[:1],))
        b = split(eng, s, x, "int")[0]
        if n:
            put(eng, s, d[1], d[2], [b] * n, e)
        out.append((s, d))
    return out


def compare_bytes(eng, s, xs, ys):
    """[(state, index of first difference or None, less)]"""
    out, cur = [], [s]
    for i, (x, y) in enumerate(zip(xs, ys)):
        nxt = []
        for s1 in cur:
            x1, y1 = join(eng, s1, [x], "unsigned char"), join(eng, s1, [y], "unsigned char")
            for s2, tv in eng.branch(s1, eng.compare(s1, "==", x1, y1, "unsigned char")):
                if tv:
                    nxt.append(s2)
                else:
                    for s3, lt in eng.branch(s2, eng.compare(s2, "<", x1, y1, "unsigned char")):
                        out.append((s3, i, lt))
        cur = nxt
    return out + [(s1, None, False) for s1 in cur]


def compare_chars(eng, s, xs, ys):
    """[(state, -1/0/1)] of two strings: unsigned bytes, then length"""
    a, b = ([split(eng, s, x, "char")[0] for x in cs] for cs in (xs, ys))
    return [(s2, (-1 if lt else 1) if i is not None else (len(a) > len(b)) - (len(a) < len(b))) for s2, i, lt in compare_bytes(eng, s, a, b)]


def h_memcmp(eng, e, st, fr):
    out = []
    for s, (x, y, n) in _args(eng, e, st, fr):
        n = cint(eng, s, n, "compared length")
        if n == 0:
            out.append((s, ZERO))
            continue
        if x[0] != "ptr" or y[0] != "ptr":
            raise Unsupported("memcmp of %s" % (x[:1],))
        for s2, i, lt in compare_bytes(eng, s, get(eng, s, x[1], x[2], n, e), get(eng, s, y[1], y[2], n, e)):
            out.append((s2, ZERO if i is None else c(-1 if lt else 1)))
    return out


def algorithm(eng, e, fn, s, vals, args):
    """std algorithms over memory; None when no argument points into it"""
    if not any(v is not None and v[0] == "ptr" for v in vals):
        return None
    name = fn[5:]
    ts = [pointee(a.get("t") or "") for a in args]
    if name in ("fill", "fill_n", "copy", "copy_n", "copy_backward", "reverse", "equal", "distance", "next", "prev", "advance"):
        w = size(eng, stype(eng, ts[0]))
        x = vals[0]
        if name in ("next", "prev"):
            n = cint(eng, s, vals[1], "distance") if len(vals) > 1 else 1
            return [(s, ("ptr", x[1], x[2] + (n if name == "next" else -n) * w))]
        if x[0] == "ptr" and name in ("fill_n", "copy_n"):
            n = max(0, cint(eng, s, vals[1], "length")) * w
        elif x[0] == "ptr" and vals[1][0] == "ptr" and x[1] == vals[1][1]:
            n = vals[1][2] - x[2]
        else:
            n = None
        if n is not None and name == "distance":
            return [(s, c(n // w))]
        if n is not None and n < 0:
            event(eng, s, "oob", x[1], x[2], n, e)
            return [(s, x)]
        if n is not None and name in ("fill", "fill_n"):
            put(eng, s, x[1], x[2], split(eng, s, vals[2], ts[0]) * (n // w), e)
            return [(s, ("ptr", x[1], x[2] + n))]
        if n is not None and name in ("copy", "copy_n", "copy_backward") and vals[2][0] == "ptr" and size(eng, stype(eng, ts[2])) == w:
            d = vals[2]
            at = d[2] - n if name == "copy_backward" else d[2]
            put(eng, s, d[1], at, get(eng, s, x[1], x[2], n, e), e)
            return [(s, ("ptr", d[1], at if name == "copy_backward" else at + n))]
        if n is not None and name == "reverse":
            bs = get(eng, s, x[1], x[2], n, e)
            put(eng, s, x[1], x[2], [b for i in range(n - w, -1, -w) for b in bs[i:i + w]], e)
            return [(s, ZERO)]
        if n is not None and name == "equal" and len(vals) == 3 and vals[2][0] == "ptr":
            return [(s2, ONE if i is None else ZERO) for s2, i, _ in
                    compare_bytes(eng, s, get(eng, s, x[1], x[2], n, e), get(eng, s, vals[2][1], vals[2][2], n, e))]
    raise Unsupported("%s over memory" % fn)


def h_algorithm(eng, e, st, fr):
    out = []
    for s, vs in _args(eng, e, st, fr):
        r = algorithm(eng, e, e["fn"], s, vs, e["a"])
        if r is None:
            return NotImplemented
        out += r
    return out


def h_bswap(eng, e, st, fr):
    n = int(e["fn"].rsplit("bswap", 1)[1]) // 8
    t = {2: "unsigned short", 4: "unsigned int", 8: "unsigned long"}[n]
    return [(s, join(eng, s, split(eng, s, v, t)[::-1], t)) for s, v in eng.ev(e["a"][0], st, fr)]


def h_rotate(eng, e, st, fr):
    w = int(e["fn"].split("rotate")[1].lstrip("leftrigh"))
    ty = {8: "unsigned char", 16: "unsigned short", 32: "unsigned int", 64: "unsigned long"}[w]
    out = []
    for s, (x, k) in eng.evs(e["a"], st, fr):
        n = cint(eng, s, k, "rotation") % w
        if "right" in e["fn"]:
            n = (w - n) % w
        b = _bits.tobits(eng, s.facts, x, w)
        if b is None:
            raise Unsupported("rotation of %s" % (x[:2],))
        out.append((s, _bits.mk(eng, s.facts, b[w - n:] + b[:w - n], ty)))
    return out


def h_malloc(eng, e, st, fr):
    out = []
    for s, vs in eng.evs(e["a"], st, fr):
        n = cint(eng, s, vs[0], "allocated size")
        eng.line = e.get("l", 0)
        if n < 0 or n > 1 << 24:
            raise Unsupported("allocation of %d bytes" % n)
        b = new_block(eng, s, n)
        s.events = s.events + (Event("malloc", e["fn"], b, (c(n),), ("ptr", b, 0), e.get("l", 0), eng.file, e),)
        out.append((s, ("ptr", b, 0)))
    return out


def h_free(eng, e, st, fr):
    out = []
    for s, vs in eng.evs(e["a"], st, fr):
        p = vs[0]
        if p[0] == "ptr":
            if s.ghost.get(("dead", p[1])) is not None:
                event(eng, s, "dead", p[1], p[2], 0, e)
            s.ghost[("dead", p[1])] = e.get("l", 0)
            s.events = s.events + (Event("free", e["fn"], p[1], tuple(vs[1:]), None, e.get("l", 0), eng.file, e),)
        out.append((s, op("void")))
    return out


def h_alloc_unique(eng, e, st, fr):
    from absint import make_object
    t = (e.get("fta") or "").split(",")[0].strip()
    if not t or not eng.is_record(t):
        t = _seq.targs(strip_t(e.get("t") or ""))[0]
    out = []
    for s, v in make_object(eng, strip_t(t), e.get("a") or [], e, st, fr):
        out.append((s, ("addr", v[1]) if v[0] == "ref" else v))
    return out


MEM = {}
for n_ in ("memcpy", "std::memcpy", "memmove", "std::memmove", "__builtin_memcpy"):
    MEM[n_] = h_memcpy
for n_ in ("memset", "std::memset"):
    MEM[n_] = h_memset
for n_ in ("memcmp", "std::memcmp"):
    MEM[n_] = h_memcmp
for n_ in (16, 32, 64):
    MEM["__builtin_bswap%d" % n_] = h_bswap
for n_ in ("fill", "fill_n", "copy", "copy_n", "copy_backward", "reverse", "equal"):
    MEM["std::" + n_] = h_algorithm
for n_ in (8, 16, 32, 64):
    MEM["__builtin_rotateleft%d" % n_] = MEM["__builtin_rotateright%d" % n_] = h_rotate
MEM["paimon::MemoryPool::Malloc"] = h_malloc
MEM["paimon::MemoryPool::Free"] = h_free
MEM["paimon::MemoryPool::AllocateUnique"] = h_alloc_unique


def strview(eng, s, p, n):
    """string value of n bytes at p"""
    n = cint(eng, s, n, "string length")
    if n == 0:
        return ("s", "")
    if p[0] != "ptr":
        raise Unsupported("string from %s" % (p[:1],))
    return _seq.mkstr([join(eng, s, [b], "char") for b in get(eng, s, p[1], p[2], n)])


def enable(eng):
    """switch the byte memory on"""
    eng.mem = True
    eng.join = False
    for k, v in MEM.items():
        eng.handlers[k] = v
    return eng
