"""Delta-varint compression is lossless, minimal and rejects malformed input.

The encoder and decoder are analysed in a bit-provenance domain: every
bit of every value is a GF(2)-linear form over the bits of the unknown inputs.
For each number of output bytes the emitted bits must be those of the
zigzag base-128 encoding, and feeding the symbolic output of the encoder to the
decoder must give back the input terms.  The decoder alone is analysed on byte
strings of unknown content."""
import bits
from dom import ONE, ZERO, add, c, ge, mk_eq0, not_, op, sub
from rules import AnalysisBroken, show
from specs import cells_of, vec

PREFIXES = ["common/utils/delta_varint"]
MIN_OBLIGATIONS = 100
RULES = {
    "R1-format": "each value is the zigzag difference to its predecessor in little-endian 7-bit groups with a continuation bit, without a superfluous group",
    "R2-roundtrip": "decompressing what was compressed gives the same list",
    "R3-decode": "the decoder reads each group once, in order, and accepts exactly complete varints of at most ten bytes",
    "R4-bounds": "no byte outside the input is read",
}
C = "paimon::DeltaVarintCompressor"


def engine(ck):
    return ck.engine(seq=True, bits=True, unroll=14, max_paths=60000, max_depth=14)


def bit(eng, p, v, w, i):
    b = bits.tobits(eng, p.st.facts, v, w)
    return None if b is None else bits.reduce(p.st.facts, b[i])


def zig(eng, facts, v):
    """zigzag bits of the term"""
    b = bits.tobits(eng, facts, v, 64)
    if b is None:
        return None
    s = b[63]
    return [bits.reduce(facts, x) for x in [s] + [bits.xor(y, s) for y in b[:63]]]


def groups(facts, z):
    """reference encoding under the path facts: list of 8-bit forms, or None when its length is not decided"""
    out = []
    rest = list(z)
    for _ in range(10):
        g, rest = rest[:7], rest[7:]
        g = g + [bits.F0] * (7 - len(g))
        out.append(g)
        if all(bits.reduce(facts, x) == bits.F0 for x in rest):
            return out
    return out


def check(ck):
    enc = ck.fn(C + "::Compress", 1)
    dec = ck.fn(C + "::Decompress", 1)
    for n in (0, 1, 2):
        lossless(ck, enc, dec, n)
    lossless(ck, enc, dec, 4, small=True)
    for n in (0, 1, 2, 3):
        decode(ck, dec, n)
    for n in (10, 11):
        long_varint(ck, dec, n)


def lossless(ck, enc, dec, n, small=False):
    eng = engine(ck)
    st = eng.new_state()
    xs = [eng.typed(("v", "x%d" % i), "long") for i in range(n)]
    for i, x in enumerate(xs):
        # differences of neighbours are representable
        if small:
            d = x if i == 0 else sub(x, xs[i - 1])
            st.facts.assume(ge(d, c(-64)), True)
            st.facts.assume(ge(c(63), d), True)
            b = bits.tobits(eng, st.facts, d, 64)
            for k in range(6, 63):
                bits.add_eq(st.facts, bits.xor(b[k], b[63]))
        st.facts.assume(ge(x, c(-(1 << 62))), True)
        st.facts.assume(ge(c((1 << 62) - 1), x), True)
    a = vec(eng, st, ("T", "input"), xs, "long")
    for p in ck.run(enc, eng, args=[a], st=st):
        cs = cells_of(p, p.val)
        if cs is None:
            raise AnalysisBroken("encoded bytes %s not understood" % show(p.val))
        bounds(ck, enc, p, n)
        vals = [eng.read(p.st, x[1], "char") if x[0] == "ref" else x for x in cs]
        pos = 0
        for i, x in enumerate(xs):
            d = x if i == 0 else sub(x, xs[i - 1])
            z = zig(eng, p.st.facts, d)
            if z is None:
                break
            want = groups(p.st.facts, z)
            got = vals[pos:pos + len(want)]
            ck.require(len(got) == len(want), "R1-format", enc, None, "%s|n=%d length" % (enc["fn"], n), "value %d takes %d bytes instead of %d" % (i, len(got), len(want)), p)
            if len(got) != len(want):
                break
            for j, (g, w) in enumerate(zip(got, want)):
                b = bits.tobits(eng, p.st.facts, g, 8)
                full = w + [bits.F1 if j + 1 < len(want) else bits.F0]
                ok = b is not None and all(bits.reduce(p.st.facts, bits.xor(q, r)) == bits.F0 for q, r in zip(b, full))
                ck.require(ok, "R1-format", enc, None, "%s|n=%d byte" % (enc["fn"], n), "byte %d of value %d is not its 7-bit group with continuation bit" % (j, i), p)
            pos += len(want)
        else:
            ck.require(pos == len(vals), "R1-format", enc, None, "%s|n=%d extra" % (enc["fn"], n), "%d bytes follow the encoded values" % (len(vals) - pos), p)
        l = ("T", "bytes")
        p.st.store[l] = op("seq", *cs)
        for q in ck.run(dec, eng, args=[("ref", l)], st=p.st.copy()):
            bounds(ck, dec, q, n)
            k = "%s|roundtrip n=%d" % (dec["fn"], n)
            if not ck.require(q.ok is True, "R2-roundtrip", dec, None, k + " rejected", "compressed data is rejected", q):
                continue
            rs = cells_of(q, q.okval())
            if rs is None:
                raise AnalysisBroken("decoded list %s not understood" % show(q.okval()))
            if not ck.require(len(rs) == n, "R2-roundtrip", dec, None, k + " count", "%d values come back for %d" % (len(rs), n), q):
                continue
            for i, r in enumerate(rs):
                v = eng.read(q.st, r[1], "long") if r[0] == "ref" else r
                good = q.st.facts.truth(mk_eq0(sub(v, xs[i]))) is True or bits.same(eng, q.st.facts, v, xs[i], "long")
                ck.require(good, "R2-roundtrip", dec, None, k + " value", "value %d comes back as %s" % (i, show(v)[:200]), q)


def bounds(ck, f, p, n):
    bad = p.events("outofrange")
    ck.require(not bad, "R4-bounds", f, bad[0].line if bad else None, "%s|bounds" % f["fn"], "an element outside the input is read", p)


def setup_bytes(ck, n):
    eng = engine(ck)
    st = eng.new_state()
    bs = [eng.typed(("v", "b%d" % i), "char") for i in range(n)]
    a = vec(eng, st, ("T", "input"), bs, "char")
    return eng, st, bs, a


def cont(eng, p, b):
    """continuation bit of the byte on the path: True/False/None"""
    x = bit(eng, p, b, 8, 7)
    return None if x is None or x[1] else bool(x[0])


def value_of(eng, p, bs):
    """reference value of one varint"""
    z = []
    for b in bs:
        z += bits.tobits(eng, p.st.facts, b, 8)[:7]
    z = (z + [bits.F0] * 64)[:64]
    s = z[0]
    return [bits.reduce(p.st.facts, bits.xor(x, s)) for x in z[1:] + [bits.F0]]


def decode(ck, dec, n):
    eng, st, bs, a = setup_bytes(ck, n)
    for p in ck.run(dec, eng, args=[a], st=st):
        bounds(ck, dec, p, n)
        key = "%s|decode n=%d" % (dec["fn"], n)
        cb = [cont(eng, p, b) for b in bs]
        ck.require(None not in cb, "R3-decode", dec, None, key + " ignored", "the continuation bit of byte %s is not looked at" % (cb.index(None) if None in cb else ""), p)
        if None in cb:
            continue
        complete = not cb or not cb[-1]
        ck.require(p.ok is complete, "R3-decode", dec, None, key + " accept", "%s input is %s" % ("complete" if complete else "truncated", "rejected" if complete else "accepted"), p)
        if not complete or p.ok is not True:
            continue
        vs, cur = [], []
        for b, k in zip(bs, cb):
            cur.append(b)
            if not k:
                vs.append(cur)
                cur = []
        rs = cells_of(p, p.okval())
        if not ck.require(rs is not None and len(rs) == len(vs), "R3-decode", dec, None, key + " count", "%s values are decoded instead of %d" % (len(rs) if rs is not None else "?", len(vs)), p):
            continue
        v = eng.read(p.st, rs[0][1], "long") if rs else None
        if v is not None:
            got = bits.tobits(eng, p.st.facts, v, 64)
            ok = got is not None and all(bits.reduce(p.st.facts, bits.xor(x, y)) == bits.F0 for x, y in zip(got, value_of(eng, p, vs[0])))
            ck.require(ok, "R3-decode", dec, None, key + " value", "the first value is not the one its bytes encode", p)


def long_varint(ck, dec, n):
    """one varint of n bytes: ten are the maximum"""
    eng, st, bs, a = setup_bytes(ck, n)
    for i, b in enumerate(bs):
        f = bits.tobits(eng, st.facts, b, 8)[7]
        bits.add_eq(st.facts, bits.xor(f, bits.F1 if i + 1 < n else bits.F0))
    for p in ck.run(dec, eng, args=[a], st=st):
        bounds(ck, dec, p, n)
        ck.require(p.ok is (n <= 10), "R3-decode", dec, None, "%s|long %d" % (dec["fn"], n), "a varint of %d bytes is %s" % (n, "rejected" if n <= 10 else "accepted"), p)
        if p.ok is True and n <= 10:
            rs = cells_of(p, p.okval())
            v = eng.read(p.st, rs[0][1], "long") if rs and len(rs) == 1 else None
            got = bits.tobits(eng, p.st.facts, v, 64) if v is not None else None
            ok = got is not None and all(bits.reduce(p.st.facts, bits.xor(x, y)) == bits.F0 for x, y in zip(got, value_of(eng, p, bs)))
            ck.require(ok, "R3-decode", dec, None, "%s|long %d value" % (dec["fn"], n), "a varint of %d bytes is decoded wrongly" % n, p)
