"""A bloom filter never forgets an added hash.

Clients build a filter over bytes of unknown content.  Adding a hash must set exactly its documented bits (provenance of every other bit
unchanged), asking must answer yes whatever the other bits are when these are set, and no when one of them is clear."""
import math

from bytespec import SegWorld
from dom import ONE, ZERO, c

import bits as B
import mem as M

PREFIXES = ["common/memory/", "common/utils/bloom_filter64"]
CLIENTS = ["c26"]
MIN_OBLIGATIONS = 500
RULES = {
    "R1-bit": "setting a bit changes exactly it, and reading answers it",
    "R2-position": "adding a hash sets exactly its documented bits",
    "R3-found": "a hash is found exactly if all its bits are set",
    "R4-size": "the size and number of hash functions follow from the expected items and error rate",
    "R5-memory": "no byte outside the filter is accessed",
}
F = "paimon::BloomFilter64::"
T32 = 1 << 32


def i32(x):
    x %= T32
    return x - T32 if x >> 31 else x


def positions(h, k, n):
    a, b = i32(h), i32(h >> 32)
    out = []
    for i in range(1, k + 1):
        x = i32(a + i * b)
        out.append((~x if x < 0 else x) % n)
    return out


HALF = (0, 1, 7, 0x7FFFFFFF, -1, -2, -0x80000000, 0x12345678, -0x12345679, 100)
HASHES = [i32(lo) % T32 + (hi % T32 << 32) for lo, hi in zip(HALF, HALF[3:] + HALF[:3])] + \
         [i32(lo) % T32 + (hi % T32 << 32) for lo, hi in zip(HALF, HALF[6:] + HALF[:6])] + [0, (1 << 64) - 1, 1 << 63, 1 << 32, (1 << 63) - 1]


def s64(h):
    return h - (1 << 64) if h >> 63 else h


def with_bits(w, bs, offset, ones=(), zeros=()):
    """bytes with some bits given"""
    st = w.state()
    out = list(bs)
    for i in range(len(out)):
        b = B.tobits(w.eng, st.facts, out[i], 8)
        for p in ones:
            if offset + p // 8 == i:
                b[p % 8] = B.F1
        for p in zeros:
            if offset + p // 8 == i:
                b[p % 8] = B.F0
        out[i] = B.mk(w.eng, st.facts, b, "unsigned char")
    return out


def check(ck):
    w = SegWorld(ck, "paimon::client26::", "R5-memory")
    bit(ck, w)
    filters(ck, w)
    sizes(ck, w)
    every(ck)


def every(ck):
    """for an unknown hash: adding and asking visit the same positions, as terms over the hash"""
    w = SegWorld(ck, "paimon::client26::", "R5-memory")
    w.eng.named = {}
    if not (ck.has_fn(F + "BitSet::Set") and ck.has_fn(F + "BitSet::Get")):
        return

    def record(result):
        def h(eng, e, st, fr):
            return [(s, s.ghost.__setitem__("pos", s.ghost.get("pos", ()) + (v,)) or result) for s, v in eng.ev(e["a"][0], st, fr)]
        return h
    w.eng.handlers[F + "BitSet::Set"] = record(ZERO)
    w.eng.handlers[F + "BitSet::Get"] = record(ONE)
    for k in (1, 2, 3):
        got = []
        for nm in ("Add", "Test"):
            st, (a,) = w.segs((5, w.bytes("b", 5)))
            got.append({p.st.ghost.get("pos", ()) for p in w.run(nm, [a.ref, ZERO, c(k), w.var("hash", "long"), w.pool(st)], st)})
        # canonical terms: equal terms are equal for every hash; unequal ones are left to the constants above
        if got[0] == got[1] and all(len(x) == k for x in got[0]):
            ck.ok("R3-found")


def bit(ck, w):
    f, g, h = ck.fn(F + "BitSet::Set"), ck.fn(F + "BitSet::Get"), ck.fn(F + "BitSet::BitSize")
    for n in (1, 2, 5):
        bs = w.bytes("b", n)
        for o in range(n):
            st, (a,) = w.segs((n, bs))
            w.number(h, "Bits", [a.ref, c(o)], (n - o) * 8, "R1-bit", "bits of %d bytes from %d" % (n, o), st)
            for i in range((n - o) * 8):
                what = "bit %d of %d bytes from %d" % (i, n, o)
                st, (a,) = w.segs((n, bs))
                w.effect(f, "SetBit", [a.ref, c(o), c(i)], [(a, with_bits(w, bs, o, ones=[i]))], "R1-bit", "setting " + what, st)
                for v in (0, 1):
                    st, (a,) = w.segs((n, with_bits(w, bs, o, ones=[i] * v, zeros=[i] * (1 - v))))
                    w.flag(g, "GetBit", [a.ref, c(o), c(i)], v == 1, "R1-bit", what + " is %d" % v, st)


def filters(ck, w):
    f, g = ck.fn(F + "AddHash"), ck.fn(F + "TestHash")
    for n, o, k in ((1, 0, 1), (1, 0, 3), (3, 0, 2), (5, 2, 4), (7, 0, 5), (13, 1, 2)):
        bs = w.bytes("b", n)
        st, (a,) = w.segs((n, bs))
        w.number(g, "Count", [a.ref, c(o), c(k)], k, "R4-size", "number of hash functions", st)
        for j, h in enumerate(HASHES):
            pos = positions(h, k, (n - o) * 8)
            what = "hash %#x, %d functions, %d bits" % (h, k, (n - o) * 8)
            st, (a,) = w.segs((n, bs))
            w.effect(f, "Add", [a.ref, c(o), c(k), c(s64(h))], [(a, with_bits(w, bs, o, ones=pos))], "R2-position", "adding " + what, st)
            st, (a,) = w.segs((n, with_bits(w, bs, o, ones=pos)))
            w.flag(g, "Test", [a.ref, c(o), c(k), c(s64(h))], True, "R3-found", "all bits set: " + what, st)
            for p in set(pos):
                st, (a,) = w.segs((n, with_bits(w, [c(255)] * n, o, zeros=[p])))
                w.flag(g, "Test", [a.ref, c(o), c(k), c(s64(h))], False, "R3-found", "bit %d clear: %s" % (p, what), st)
            st, (a,) = w.segs((n, bs))
            w.flag(g, "AddTest", [a.ref, c(o), c(k), c(s64(h)), c(s64(HASHES[(j + 7) % len(HASHES)]))], True, "R3-found", "added before another: " + what, st)


def sizes(ck, w):
    f, g = ck.fn(F + "BloomFilter64", 3), ck.fn(F + "TestHash")
    for items, fpp in ((10, 0.1), (1, 0.5), (7, 0.03), (100, 0.1), (3, 0.9), (8, 0.01), (100, 0.9)):
        nb = int(-items * math.log(fpp) / (math.log(2) * math.log(2)))
        n = nb + (8 - nb % 8)
        k = max(1, int(math.floor(n / items * math.log(2) + 0.5)))
        what = "%d items at rate %s" % (items, fpp)
        w.number(f, "NewBits", [c(items), ("f", fpp)], n, "R4-size", "bits for " + what, w.state())
        w.number(f, "NewCount", [c(items), ("f", fpp)], k, "R4-size", "hash functions for " + what, w.state())
        for h in HASHES[:6]:
            for x in HASHES[:6]:
                want = set(positions(x, k, n)) <= set(positions(h, k, n))
                w.flag(g, "NewTest", [c(items), ("f", fpp), c(s64(h)), c(s64(x))], want, "R3-found", "%#x after adding %#x for %s" % (x, h, what), w.state())
