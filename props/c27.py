"""Binary strings behave as their bytes and characters wherever segment boundaries fall.

Clients (inst/c27.cpp, public interface only) view bytes spread over segments of a given size as a string and ask one question; answers
are compared with the same question on the contiguous bytes.  Bytes are unknown where only their position matters, and constant where
the encoding decides."""
from bytespec import SegWorld
from dom import ZERO, c

PREFIXES = ["common/memory/", "common/data/binary_section", "common/data/binary_string"]
CLIENTS = ["c27"]
MIN_OBLIGATIONS = 1000
RULES = {
    "R1-text": "a string yields exactly its bytes",
    "R2-order": "strings are ordered by their first different byte, unsigned, then by length",
    "R3-chars": "characters are counted and cut by their encoded length, never beyond the string",
    "R4-match": "prefix, suffix, containment and position answer for the bytes of the strings",
    "R5-case": "case conversion changes exactly the letters",
    "R6-memory": "no byte outside a segment or buffer is accessed",
}
S = "paimon::BinaryString::"
MEM = "R6-memory"


def lead(b):
    if b < 0x80:
        return 1
    if b >> 5 == 0b110 and b & 0x1E:
        return 2
    if b >> 4 == 0b1110:
        return 3
    if b >> 3 == 0b11110:
        return 4
    return 1


def chars(bs):
    out, i = [], 0
    while i < len(bs):
        n = lead(bs[i])
        out.append(bs[i:i + n])
        i += n
    return out


def cs(bs):
    return [c(b) for b in bs]


def check(ck):
    w = SegWorld(ck, "paimon::client27::", MEM)
    text(ck, w)
    order(ck, w)
    characters(ck, w)
    match(ck, w)
    case(ck, w)


SHAPES = ((1, 4), (2, 3), (3, 2), (6, 1))


def text(ck, w):
    for size, count in SHAPES:
        total = size * count
        bs = w.bytes("b", total)
        for off in range(total):
            for n in range(total - off + 1):
                what = "%d bytes at %d of segments of %d" % (n, off, size)
                part = bs[off:off + n]
                runs = [("Text", "ToString", []), ("CopyText", "Copy", [])]
                if size >= off + n and count == 1:
                    runs.append(("BytesPart", "FromBytes", []))
                for nm, fn, extra in runs:
                    st, (a,) = w.segs((size, bs))
                    w.result(ck.fn(S + fn, 3) if fn == "FromBytes" else ck.fn(S + fn), nm, [a.ref, c(off), c(n)], part, "R1-text", what, st)
                for i in range(n):
                    st, (a,) = w.segs((size, bs))
                    for p, v in w.answers(ck.fn(S + "ByteAt"), "At", [a.ref, c(off), c(n), c(i)], st):
                        ck.require(w.same_value(p, v, part[i], "char"), "R1-text", ck.fn(S + "ByteAt"), None, "At", "byte %d of %s is another one" % (i, what), p)
                    for j in range(i, n):
                        st, (a,) = w.segs((size, bs))
                        w.result(ck.fn(S + "CopyBinaryString"), "PartText", [a.ref, c(off), c(n), c(i), c(j)], part[i:j + 1], "R1-text", "bytes %d to %d of %s" % (i, j, what), st)
                        if off + n <= size:
                            st, (a,) = w.segs((size, bs))
                            w.result(ck.fn(S + "CopyBinaryStringInOneSeg"), "PartOneText", [a.ref, c(off), c(n), c(i), c(j - i)], part[i:j], "R1-text", "%d bytes at %d of %s" % (j - i, i, what), st)
    for n in range(4):
        bs = w.bytes("b", n)
        st = w.state()
        w.result(ck.fn(S + "FromString"), "RoundText", [w.string(st, bs)], bs, "R1-text", "a string of %d bytes" % n, st)
        st = w.state()
        w.result(ck.fn(S + "BlankString"), "BlankText", [c(n)], cs([0x20] * n), "R1-text", "a blank string of %d bytes" % n, st)
        if n:
            st, (a,) = w.segs((n, bs))
            w.result(ck.fn(S + "FromBytes", 1), "BytesText", [a.ref], bs, "R1-text", "an array of %d bytes" % n, st)
    w.result(ck.fn(S + "EmptyUtf8"), "EmptyText", [], [], "R1-text", "the empty string", w.state())


PAIRS = ((0, 1), (0x7F, 0x80), (0x41, 0xC1), (1, 0), (0x80, 0x7F), (0xFF, 0))


def order(ck, w):
    f, g, h = ck.fn(S + "CompareTo"), ck.fn(S + "operator=="), ck.fn(S + "operator<")
    for (s1, c1), (s2, c2) in (((6, 1), (6, 1)), ((2, 3), (3, 2)), ((1, 5), (4, 2)), ((3, 2), (2, 3)), ((2, 3), (2, 3)), ((5, 1), (2, 3)), ((2, 3), (5, 1))):
        t1, t2 = s1 * c1, s2 * c2
        for o1, o2 in ((0, 0), (0, 2), (1, 1), (3, 0)):
            for n1 in range(t1 - o1 + 1):
                for n2 in range(t2 - o2 + 1):
                    m = min(n1, n2)
                    for k in range(-1, m):
                        for a, b in (PAIRS if m == 3 else PAIRS[1:5:2]) if k >= 0 else ((0, 0),):
                            if abs(n1 - n2) > 1 and (k >= 0 or min(n1, n2) > 1):
                                continue
                            x = w.bytes("m", m)
                            y = list(x)
                            if k >= 0:
                                x[k], y[k] = c(a), c(b)
                                for j in range(k + 1, m):
                                    x[j], y[j] = (c(0xF0), c(0x10)) if a < b else (c(0x10), c(0xF0))
                            d1 = [c(3)] * o1 + x + [c(5)] * (t1 - o1 - m)
                            d2 = [c(9)] * o2 + y + [c(7)] * (t2 - o2 - m)
                            want = (a > b) - (a < b) or (n1 > n2) - (n1 < n2)
                            what = "strings of %d and %d bytes (segments of %d and %d) whose byte %d is %#x against %#x" % (n1, n2, s1, s2, k, a, b)
                            st, (h1, h2) = w.segs((s1, d1), (s2, d2))
                            w.sign(f, "Order", [h1.ref, c(o1), c(n1), h2.ref, c(o2), c(n2)], want, "R2-order", what, st)
                            if o1 == 1 and o2 == 1:
                                st, (h1, h2) = w.segs((s1, d1), (s2, d2))
                                w.flag(g, "Same", [h1.ref, c(o1), c(n1), h2.ref, c(o2), c(n2)], want == 0, "R2-order", what, st)
                                st, (h1, h2) = w.segs((s1, d1), (s2, d2))
                                w.flag(h, "Less", [h1.ref, c(o1), c(n1), h2.ref, c(o2), c(n2)], want < 0, "R2-order", what, st)


A, E2, C3, G4 = [0x61], [0xC3, 0xA9], [0xE4, 0xB8, 0xAD], [0xF0, 0x9F, 0x98, 0x80]
TEXTS = ([], A, E2, A + E2, C3 + A, G4, A + G4 + E2, E2 + E2 + A, C3 + E2, A + A + A + A, [0x80] + A, [0xC0, 0x80], [0xC1, 0xBF], [0xFF, 0xFE] + A, [0xDF, 0xBF] + A, [0xEF, 0xBF, 0xBF], [0xF7, 0x80, 0x80, 0x80, 0x62],
         # cut in the middle of a character
         A + [0xC3], [0xE4], A + [0xE4, 0xB8], [0xF0, 0x9F], G4[:3], A + G4[:1])


def characters(ck, w):
    f, g, h = ck.fn(S + "NumChars"), ck.fn(S + "Substring"), ck.fn(S + "NumBytesForFirstByte")
    for b in range(256):
        v = b - 256 if b > 127 else b
        for p in ck.run(h, w.eng, args=[c(v)], st=w.state()):
            ck.require(p.val == c(lead(b)), "R3-chars", h, None, "lead", "first byte %#x announces %s bytes instead of %d" % (b, p.val, lead(b)), p)
    for t in TEXTS:
        for off in (0, 3):
            for size in sorted({1, 2, 3, off + len(t), off + len(t) + 3}):
                if size == 0:
                    continue
                d = cs([0xC3] * off + t + [0x7A] * 3)
                what = "text [%s] at %d of segments of %d" % (" ".join("%02x" % b for b in t), off, size)
                if size == off + len(t):
                    d = d[:size]
                st, (a,) = w.segs((size, d))
                w.number(f, "Count", [a.ref, c(off), c(len(t))], len(chars(t)), "R3-chars", "number of characters of " + what, st)
                n = len(chars(t))
                for b in range(-1, n + 2):
                    for e in range(-1, n + 3):
                        want = [x for q in chars(t)[max(b, 0):max(e, 0)] for x in q] if e > b else []
                        st, (a,) = w.segs((size, d))
                        w.result(g, "SubText", [a.ref, c(off), c(len(t)), c(b), c(e)], cs(want), "R3-chars", "characters %d to %d of %s" % (b, e, what), st)


def match(ck, w):
    f, g, h, i = [ck.fn(S + x) for x in ("Contains", "StartsWith", "EndsWith", "IndexOf")]
    texts = (b"", b"ab", b"aab", b"abab", b"baab", "é中a".encode(), "中éa".encode(), "aéa中".encode())
    subs = (b"", b"a", b"ab", b"b", b"aab", b"baabx", "é".encode(), "中a".encode(), b"\xa9")
    for s1, s2, o1, o2 in ((1, 2, 0, 1), (2, 2, 1, 1), (3, 6, 2, 0), (9, 2, 0, 1), (9, 6, 1, 1), (9, 6, 0, 0), (4, 3, 3, 2)):
        for t in texts:
            for s in subs:
                if o1 + len(t) <= 9 and o2 + len(s) <= 6:
                    d1 = cs(b"a" * o1 + t + b"b" * (9 - o1 - len(t)))
                    d2 = cs(b"b" * o2 + s + b"a" * (6 - o2 - len(s)))
                    what = "%r at %d of segments of %d and %r of segments of %d" % (t, o1, s1, s, s2)
                    for nm, fn, want in (("Has", f, s in t), ("Starts", g, t.startswith(s)), ("Ends", h, t.endswith(s))):
                        st, (a, b) = w.segs((s1, d1), (s2, d2))
                        w.flag(fn, nm, [a.ref, c(o1), c(len(t)), b.ref, c(o2), c(len(s))], want, "R4-match", what, st)
                    cl = chars(list(t))
                    for start in range(len(cl) + 2):
                        want = 0 if not s else next((k for k in range(start, len(cl)) if bytes(x for q in cl[k:] for x in q).startswith(s)), -1)
                        st, (a, b) = w.segs((s1, d1), (s2, d2))
                        w.number(i, "Index", [a.ref, c(o1), c(len(t)), b.ref, c(o2), c(len(s)), c(start)], want, "R4-match", what + " from character %d" % start, st)


def case(ck, w):
    fs = {"Upper": ck.fn(S + "ToUpperCase"), "Lower": ck.fn(S + "ToLowerCase")}
    up = lambda b: b - 32 if 0x61 <= b <= 0x7A else b
    lo = lambda b: b + 32 if 0x41 <= b <= 0x5A else b
    jobs = [([b, 0x61, 0x5A], 9, 0) for b in range(256)]
    jobs += [([0x61, 0x42] + t + [0x7A, 0x59], s, o) for t in (E2, C3, [0x31], []) for s in (1, 2, 3, 12) for o in (0, 1, 2)]
    jobs += [([], s, 0) for s in (1, 4)] + [([b], s, o) for b in (0x61, 0x5A, 0x31) for s in (1, 3) for o in (0, 1)]
    for t, size, off in jobs:
        d = cs([0x41] * off + t + [0x61] * 3)
        for nm, m in (("Upper", up), ("Lower", lo)):
            st, (a,) = w.segs((size, d))
            w.result(fs[nm], nm, [a.ref, c(off), c(len(t))], cs([m(b) for b in t]), "R5-case", "%s case of [%s] at %d of segments of %d" % (nm.lower(), " ".join("%02x" % b for b in t), off, size), st)
