"""Hashes are stable: the documented 32-bit function of the bytes, whatever holds them.

Two parts.  Constants: each entry point is propagated over byte strings whose hash is known from an independent definition here.
Unknown bytes: every entry point must build the same term as the array one, so the equality holds for all contents."""
from bytespec import SegWorld
from dom import c
from rules import AnalysisBroken, show
from specs import need

PREFIXES = ["common/memory/", "common/data/binary_section", "common/data/binary_string"]
CLIENTS = ["c24"]
MIN_OBLIGATIONS = 500
RULES = {
    "R1-value": "the hash of given bytes is the documented number",
    "R2-same": "the hash depends on the bytes only, not on where they lie",
    "R3-memory": "no byte outside a segment or buffer is accessed",
}
U = "paimon::MurmurHashUtils::"
G = "paimon::MemorySegmentUtils::"
M32 = 0xFFFFFFFF


def rotl(x, r):
    return ((x << r) | (x >> (32 - r))) & M32


def fmix(h):
    h ^= h >> 16
    h = h * 0x85EBCA6B & M32
    h ^= h >> 13
    h = h * 0xC2B2AE35 & M32
    return h ^ (h >> 16)


def i32(x):
    return x - (1 << 32) if x >> 31 else x


def murmur(bs, seed=42):
    h = seed & M32
    n = len(bs) - len(bs) % 4
    ks = [int.from_bytes(bytes(bs[i:i + 4]), "little") for i in range(0, n, 4)] + [(b - 256 if b > 127 else b) & M32 for b in bs[n:]]
    for k in ks:
        k = rotl(k * 0xCC9E2D51 & M32, 15) * 0x1B873593 & M32
        h = (rotl(h ^ k, 13) * 5 + 0xE6546B64) & M32
    return i32(fmix(h ^ len(bs)))


TEXTS = [[], [0], [1], [0x7F], [0x80], [0xFF], [1, 2], [0xC3, 0xA9], [9, 8, 7], [0xFF, 0xFE, 0xFD], [1, 2, 3, 4], [0xFF] * 4, [0x80, 0, 0, 0x80], [0] * 4,
         [5, 6, 7, 8, 9], [0xF0, 0x9F, 0x98, 0x80, 0x81], list(range(1, 7)), list(range(250, 257 - 1)) + [0], list(range(1, 8)), list(range(1, 9)), [0xEE] * 8,
         list(range(120, 133)), list(range(3, 15)), list(range(17))]




def check(ck):
    w = SegWorld(ck, "paimon::client24::", "R3-memory")
    for h in (0, 1, 42, 0x7FFFFFFF, 0x80000000, M32, 0x12345678, 0xDEADBEEF):
        w.number(ck.fn(U + "Fmix", 1), "Final", [c(h)], i32(fmix(h)), "R1-value", "final mix of %#x" % h, w.state())
    for t in TEXTS:
        entries(ck, w, [c(b) for b in t], lambda f, nm, args, st, what, pos=False, seed=42: w.number(
            f, nm, args, (murmur(t, seed) & 0x7FFFFFFF) if pos else murmur(t, seed), "R1-value", "hash of [%s], %s" % (" ".join("%02x" % b for b in t), what), st))
    w = SegWorld(ck, "paimon::client24::", "R3-memory")
    w.eng.named = {}
    for n in range(10):
        bs = w.bytes("b", n)
        ref = {}

        def same(f, nm, args, st, what, pos=False, seed=42):
            if pos:
                return
            for p, v in w.answers(f, nm, args, st):
                w.sure(p, [v])
                if seed not in ref:
                    ref[seed] = v
                # terms are canonical: equal terms are equal for all contents; different terms may still be equal numbers,
                # which the constants above decide
                if v == ref[seed]:
                    ck.ok("R2-same")
        entries(ck, w, bs, same)


def entries(ck, w, bs, ask):
    n = len(bs)
    hb = ck.fn(U + "HashBytes", 1)
    pad = lambda o, k: [c(0xA5)] * o + bs + [c(0x5A)] * k
    if n:
        st, (a,) = w.segs((n, bs))
        ask(hb, "Array", [a.ref], st, "array")
        st, (a,) = w.segs((n, bs))
        ask(ck.fn(U + "HashBytesPositive"), "ArrayPositive", [a.ref], st, "array, positive", pos=True)
    for o, k in ((0, 1), (1, 0), (2, 3), (4, 1)):
        if o + k + n == 0:
            continue
        d = pad(o, k)
        for nm, f, words in (("Raw", ck.fn(U + "HashUnsafeBytes", 3), False), ("RawWords", ck.fn(U + "HashUnsafeBytesByWords", 3), True),
                             ("Segment", ck.fn(U + "HashBytes", 3), False), ("SegmentWords", ck.fn(U + "HashBytesByWords", 3), True)):
            if words and n % 4:
                continue
            st, (a,) = w.segs((len(d), d))
            ask(f, nm, [a.ref, c(o), c(n)], st, "at %d of one block" % o)
        for seed in (0, -1, 7):
            st, (a,) = w.segs((len(d), d))
            ask(ck.fn(U + "HashUnsafeBytes", 4), "RawSeed", [a.ref, c(o), c(n), c(seed)], st, "seed %d" % seed, seed=seed)
        for size in sorted({1, 2, 3, 5, 8, o + n, len(d)}):
            if size == 0:
                continue
            for nm, f, words in (("Spread", ck.fn(G + "Hash"), False), ("SpreadWords", ck.fn(G + "HashByWords"), True), ("Text", ck.fn("paimon::BinarySection::HashCode"), False)):
                if words and n % 4:
                    continue
                st, (a,) = w.segs((size, d))
                ask(f, nm, [a.ref, c(o), c(n)], st, "at %d of segments of %d" % (o, size))
