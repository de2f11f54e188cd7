"""Segmented memory reads and writes the same bytes wherever segment boundaries fall.

Clients (inst/c23.cpp, public interface only) run one operation on unknown bytes spread over segments of a given size; results are
compared with the same operation on the contiguous bytes."""
import bits as Bt
import mem as M
from bytespec import SegWorld, hexs
from dom import ONE, ZERO, c
from rules import AnalysisBroken, show
from specs import value

PREFIXES = ["common/memory/", "common/data/binary_section", "common/io/memory_segment_output_stream"]
CLIENTS = ["c23"]
MIN_OBLIGATIONS = 1000
RULES = {
    "R1-value": "a value is read from and stored into exactly its bytes, also across a boundary",
    "R2-copy": "copying moves exactly the requested bytes and nothing else",
    "R3-bit": "a bit operation answers for or changes exactly the addressed bit",
    "R4-equal": "regions are equal exactly if all their bytes are",
    "R5-order": "regions are ordered by their first different byte, unsigned, then by length",
    "R6-find": "a search answers the first position where the bytes occur",
    "R7-memory": "no byte outside a segment or buffer is accessed",
    "R8-field": "a field word yields the bytes it describes",
}
U = "paimon::MemorySegmentUtils::"
S = "paimon::MemorySegment::"
B = "paimon::BinarySection::"
T = {"Bool": "bool", "Char": "char", "Short": "short", "Int": "int", "Long": "long", "Float": "float", "Double": "double"}
MEM = "R7-memory"


def inst(ck, name, t=None):
    fs = [f for f in ck.prog.fns(name) if not f.get("dep")]
    if not fs:
        return ck.fn(name)
    return next((f for f in fs if f.get("fta") == t), fs[0]) if t else fs[0]


def check(ck):
    w = SegWorld(ck, "paimon::client23::", MEM)
    for n, t in T.items():
        values(ck, w, n, t)
    copies(ck, w)
    one(ck, w)
    bits(ck, w)
    equal(ck, w)
    order(ck, w)
    find(ck, w)
    fields(ck, w)


def values(ck, w, n, t):
    k = M.size(w.eng, t)
    for size, count in ((1, 9), (3, 4), (5, 3), (8, 2), (12, 1)):
        total = size * count
        for off in range(total - k + 1):
            for get, put, ok in (("Get", "Set", True), ("One", "Put", off + k <= size)):
                if not ok:
                    continue
                bs = w.bytes("b", total)
                if t == "bool":
                    bs = [M.split(w.eng, w.state(), w.var("flag%d" % i, "bool"), "bool")[0] for i in range(total)]
                f = inst(ck, (U if get == "Get" else S) + "GetValue", t)
                st, (a,) = w.segs((size, bs))
                for p in w.run(get + n, [a.ref, c(off), w.pool(st)], st):
                    w.safe(f, p, get + n, MEM)
                    got = w.sure(p, M.split(w.eng, p.st, value(p, p.val), t))
                    ck.require(w.same_all(p, got, bs[off:off + k]), "R1-value", f, None, get + n, "a %s at %d in segments of %d is read as [%s]" % (t, off, size, hexs(got)), p)
                v = w.var("value", t)
                bs = w.bytes("b", total)
                f = inst(ck, (U + "SetValue") if get == "Get" else (S + "PutValue"), t)
                st, (a,) = w.segs((size, bs))
                w.effect(f, put + n, [a.ref, c(off), v], [(a, bs[:off] + M.split(w.eng, st, v, t) + bs[off + k:])], "R1-value", "a %s stored at %d in segments of %d" % (t, off, size), st)


def copies(ck, w):
    for size, count in ((1, 4), (2, 3), (3, 3), (4, 2), (7, 1)):
        total = size * count
        for off in range(total + 1):
            for n in range(total - off + 1):
                bs = w.bytes("b", total)
                what = "%d bytes at %d of segments of %d" % (n, off, size)
                part = bs[off:off + n]
                for nm, f in (("CopyOut", ck.fn(U + "CopyToBytes", 4)), ("Fetch", ck.fn(U + "GetBytes")), ("SectionBytes", ck.fn(B + "ToBytes")), ("SectionOne", ck.fn(B + "ToBytes"))):
                    if nm != "SectionOne" or off + n <= size:
                        st, (a,) = w.segs((size, bs))
                        w.result(f, nm, [a.ref, c(off), c(n)], part, "R2-copy", what, st)
                old = w.bytes("t", n + 2)
                for at in (0, 1, 2):
                    want = old[:at] + part + old[at + n:]
                    st, (a, t) = w.segs((size, bs), (n + 2, old))
                    w.effect(inst(ck, U + "CopyToBytes"), "CopyInto", [a.ref, c(off), t.ref, c(at), c(n)], [(a, bs), (t, want)], "R2-copy", "copy of %s to %d" % (what, at), st)
                    st, (a,) = w.segs((size, bs))
                    w.result(inst(ck, U + "CopyToBytes"), "CopyIntoString", [a.ref, c(off), w.string(st, old), c(at), c(n)], want, "R2-copy", "copy of %s to %d of a string" % (what, at), st)
                    st, (a, t) = w.segs((size, bs), (n + 2, old))
                    w.effect(ck.fn(U + "CopyFromBytes"), "CopyIn", [a.ref, c(off), t.ref, c(at), c(n)], [(a, bs[:off] + old[at:at + n] + bs[off + n:]), (t, old)], "R2-copy",
                             "storing %d bytes from %d at %d of segments of %d" % (n, at, off, size), st)
                f = ck.fn(U + "CopyToUnsafe")
                st, (a,) = w.segs((size, bs))
                t = w.block(st, old)
                for p in w.run("CopyRaw", [a.ref, c(off), t, c(n), w.pool(st)], st):
                    w.safe(f, p, "CopyRaw", MEM)
                    got = w.sure(p, M.get(w.eng, p.st, t[1], 0, n + 2))
                    ck.require(w.same_all(p, got, part + old[n:]), "R2-copy", f, None, "CopyRaw", "copy of %s leaves [%s]" % (what, hexs(got)), p)
                f = ck.fn(U + "CopyToStream")
                for other in (3, 64):
                    for more in (0, 1):
                        if more and off + n < total:
                            continue
                        st, (a,) = w.segs((size, bs))
                        for p in w.run("Stream", [a.ref, c(off), c(n + more), c(other), w.pool(st)], st):
                            w.safe(f, p, "Stream", MEM)
                            if more:
                                ck.require(p.ok is False, "R2-copy", f, None, "Stream|beyond", "streaming %d bytes at %d of %d succeeds" % (n + 1, off, total), p)
                            elif ck.require(p.ok is True, "R2-copy", f, None, "Stream|spurious", "streaming %s fails" % what, p):
                                got = w.out_bytes(p, p.okval())
                                ck.require(w.same_all(p, got, part), "R2-copy", f, None, "Stream", "streaming %s gives [%s]" % (what, hexs(got)), p)


def one(ck, w):
    a, b = w.bytes("a", 4), w.bytes("b", 5)
    for n in range(5):
        for o1 in range(4 - n + 1):
            for o2 in range(5 - n + 1):
                after = b[:o2] + a[o1:o1 + n] + b[o2 + n:]
                for nm, f, x in (("CopySegment", ck.fn(S + "CopyTo"), a), ("PutRange", inst(ck, S + "Put"), a), ("GetRange", inst(ck, S + "Get"), a), ("Swap", ck.fn(S + "SwapBytes"), a[:o1] + b[o2:o2 + n] + a[o1 + n:])):
                    st, (h, k) = w.segs((4, a), (5, b))
                    w.effect(f, nm, [h.ref, c(o1), k.ref, c(o2), c(n)], [(h, x), (k, after)], "R2-copy", "%d bytes from %d to %d" % (n, o1, o2), st)
    a = w.bytes("a", 3)
    for o in range(3):
        st, (h, k) = w.segs((3, a), (5, b))
        w.effect(inst(ck, S + "Put"), "PutAll", [h.ref, k.ref, c(o)], [(h, a), (k, b[:o] + a + b[o + 3:])], "R2-copy", "an array stored at %d" % o, st)
        st, (h, k) = w.segs((5, b), (3, a))
        w.effect(inst(ck, S + "Get"), "GetAll", [h.ref, c(o), k.ref], [(h, b), (k, b[o:o + 3])], "R2-copy", "an array fetched at %d" % o, st)
        st, (h,) = w.segs((3, a))
        x = w.byte("x")
        w.effect(inst(ck, S + "Put"), "Shared", [h.ref, c(o), M.join(w.eng, st, [x], "char")], [(h, a[:o] + [x] + a[o + 1:])], "R2-copy", "a byte stored through a copy of the segment", st)


def with_bit(w, st, x, i, b):
    """byte x with bit i set to b"""
    bs = list(Bt.tobits(w.eng, st.facts, x, 8, False))
    bs[i] = Bt.F1 if b else Bt.F0
    return Bt.mk(w.eng, st.facts, bs, "unsigned char")


def bits(ck, w):
    def pick(nm, vector):
        return next(g for g in ck.fn(U + nm, many=True) if ("vector" in g["params"][0]["t"]) is vector)
    low = w.byte("low")
    for size, count in ((1, 3), (2, 2), (4, 1)):
        total = size * count
        bs = w.bytes("b", total)
        for base in range(total):
            for i in range(8 * (total - base)):
                at = base + i // 8
                for single in (False, True):
                    if single and at >= size:
                        continue
                    for b in (0, 1):
                        for nm, fn in (("RaiseBit", "BitSet"), ("ClearBit", "BitUnSet"), ("TestBit", "BitGet")):
                            f = pick(fn, not single)
                            s0 = w.state()
                            # the addressed byte is unknown except for the addressed bit
                            d = bs[:at] + [with_bit(w, s0, low, i % 8, b)] + bs[at + 1:]
                            st, (h,) = w.segs((size, d))
                            args = [h.ref, c(base), c(i)]
                            text = "bit %d from byte %d in segments of %d" % (i, base, size)
                            if nm == "TestBit":
                                w.flag(f, nm + "One" * single, args, bool(b), "R3-bit", text, st)
                            else:
                                w.effect(f, nm + "One" * single, args, [(h, bs[:at] + [with_bit(w, s0, low, i % 8, nm == "RaiseBit")] + bs[at + 1:])], "R3-bit", text, st)


def equal(ck, w):
    f, g, h = ck.fn(U + "Equals"), ck.fn(S + "EqualTo"), ck.fn(B + "operator==")
    for (s1, c1), (s2, c2), lens in (((2, 2), (3, 2), range(5)), ((1, 3), (4, 1), range(4)), ((3, 2), (3, 2), (1, 3, 5)), ((20, 1), (20, 1), (8, 9, 16, 17)), ((10, 2), (20, 1), (8, 15))):
        t1, t2 = s1 * c1, s2 * c2
        for n in lens:
            for o1 in range(t1 - n + 1):
                for o2 in range(t2 - n + 1):
                    if t1 == 20 and (o1, o2) not in ((0, 0), (1, 2), (2, 1), (t1 - n, t2 - n)):
                        continue
                    # -1: all equal; k: byte k differs; n: only bytes outside the regions differ
                    for k in [-1, n] + list(range(n)):
                        x = w.bytes("m", n)
                        y = list(x)
                        if 0 <= k < n:
                            x[k], y[k] = c(0x41), c(0xC1)
                        d1 = [c(1)] * o1 + x + [c(1)] * (t1 - o1 - n)
                        d2 = [c(2 if k == n else 1)] * o2 + y + [c(2 if k == n else 1)] * (t2 - o2 - n)
                        want = not 0 <= k < n
                        text = "%d bytes at %d (segments of %d) against %d (segments of %d), %s" % (n, o1, s1, o2, s2, "equal" if want else "different at %d" % k)
                        st, (a, b) = w.segs((s1, d1), (s2, d2))
                        w.flag(f, "Same", [a.ref, c(o1), b.ref, c(o2), c(n)], want, "R4-equal", text, st)
                        st, (a, b) = w.segs((s1, d1), (s2, d2))
                        w.flag(h, "SameSection", [a.ref, c(o1), c(n), b.ref, c(o2), c(n)], want, "R4-equal", text, st)
                        if o1 + n <= s1 and o2 + n <= s2:
                            st, (a, b) = w.segs((s1, d1), (s2, d2))
                            w.flag(g, "SameOne", [a.ref, c(o1), b.ref, c(o2), c(n)], want, "R4-equal", text, st)
    m = w.bytes("m", 4)
    for i in range(4):
        for j in range(4):
            st, (a, b) = w.segs((2, m), (4, m))
            w.flag(h, "SameSection", [a.ref, ZERO, c(i), b.ref, ZERO, c(j)], i == j, "R4-equal", "sections of %d and %d bytes" % (i, j), st)


PAIRS = ((0, 1), (0x7F, 0x80), (0x41, 0xC1), (0xFE, 0xFF), (1, 0), (0x80, 0x7F), (0xFF, 0))


def order(ck, w):
    fs = ck.fn(S + "Compare", many=True)
    f4, f5 = [next(g for g in fs if len(g["params"]) == k) for k in (4, 5)]
    total = 20
    for n in (0, 1, 3, 7, 8, 9, 16, 18):
        for o1, o2 in ((0, 0), (1, 2)):
            for k in range(-1, n):
                for a, b in PAIRS if k >= 0 else ((0, 0),):
                    x = w.bytes("m", n)
                    y = list(x)
                    if k >= 0:
                        x[k], y[k] = c(a), c(b)
                        for j in range(k + 1, n):  # later bytes say the opposite
                            x[j], y[j] = (c(0xF0), c(0x10)) if a < b else (c(0x10), c(0xF0))
                    for d in (0, 1, -1):
                        n1, n2 = n + max(d, 0), n + max(-d, 0)
                        if max(o1 + n1, o2 + n2) > total or (d and k not in (-1, n - 1)):
                            continue
                        d1 = [c(3)] * o1 + x + [c(5)] * (total - o1 - n)
                        d2 = [c(9)] * o2 + y + [c(5)] * (total - o2 - n)
                        want = (a > b) - (a < b) or d
                        for nm, f, extra in [("Order", f5, [c(n1), c(n2)])] + ([("OrderSame", f4, [c(n)])] if d == 0 else []):
                            st, (h1, h2) = w.segs((total, d1), (total, d2))
                            w.sign(f, nm, [h1.ref, c(o1), h2.ref, c(o2)] + extra, want, "R5-order", "regions of %d and %d bytes whose byte %d is %#x against %#x" % (n1, n2, k, a, b), st)


def find(ck, w):
    f = ck.fn(U + "Find")
    texts = ("....", "ab..", ".ab.", "..ab", "abab", "aaab", "aab.", ".aab", "a..b", "bbba", "aaaa")
    subs = ("", "a", "ab", "aab", "b", "abab", "ababa", "aaaaa")
    for s1 in (1, 2, 3, 6):
        for s2 in (1, 2, 6):
            for t in texts:
                for s in subs:
                    for o1 in (0, 1):
                        o2 = 1 if len(s) < 5 else 0
                        d1 = "a" * o1 + t + "b" * (6 - o1 - len(t))
                        d2 = "b" * o2 + s + "a" * (6 - o2 - len(s))
                        i = t.find(s)
                        st, (a, b) = w.segs((s1, [c(ord(x)) for x in d1]), (s2, [c(ord(x)) for x in d2]))
                        w.number(f, "Search", [a.ref, c(o1), c(len(t)), b.ref, c(o2), c(len(s))], -1 if i < 0 else o1 + i, "R6-find", "searching '%s' in '%s' (segments of %d and %d)" % (s, t, s1, s2), st)


def fields(ck, w):
    f = ck.fn(B + "ReadBinary")
    for size, total in ((24, 24), (5, 25), (8, 24)):
        for field in (0, 3, 8):
            for n in range(8):
                bs = w.bytes("b", total)
                bs[field + 7] = c(0x80 | n)
                st, (a,) = w.segs((size, bs))
                w.result(f, "Field", [a.ref, c(2), c(field)], bs[field:field + n], "R8-field", "inline field of %d bytes" % n, st)
            for base in (0, 2):
                for sub, n in ((field + 8, 8), (field + 8, 0), (field + 9, 5), (16, 6)):
                    if base + sub + n > total or base + sub < field + 8:
                        continue
                    bs = w.bytes("b", total)
                    bs[field:field + 8] = [c(n), ZERO, ZERO, ZERO, c(sub), ZERO, ZERO, ZERO]
                    st, (a,) = w.segs((size, bs))
                    w.result(f, "Field", [a.ref, c(base), c(field)], bs[base + sub:base + sub + n], "R8-field", "field of %d bytes at %d" % (n, base + sub), st)
