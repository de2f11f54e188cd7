"""Data streams store and restore values in the documented byte order.

Clients (inst/c04.cpp, public interface only) write one value, byte array or string and hand back the bytes, or read one from a buffer.
The analysis runs in byte memory (lib/mem.py): the bits of the unknown value are followed through swapping, copying and segment
boundaries, and the stored bytes are compared with the documented layout bit by bit."""
import mem as M
from bytespec import World, hexs
from dom import ONE, ZERO, c
from rules import AnalysisBroken, show
from specs import value

PREFIXES = ["common/io/data_output_stream", "common/io/data_input_stream", "common/io/memory_segment_output_stream", "common/io/byte_array_input_stream", "common/memory/"]
CLIENTS = ["c04"]
MIN_OBLIGATIONS = 300
RULES = {
    "R1-layout": "a written value is stored in the byte order in force, big endian when none was set",
    "R2-read": "a value is read from exactly its bytes and the position moves behind it",
    "R3-text": "strings are stored with a 16-bit length, byte arrays without one, and come back unchanged",
    "R4-error": "a short or failed transfer, or a read beyond the end, is an error, and nothing else is",
    "R5-memory": "no byte outside the source or target buffer is accessed",
    "R6-segments": "values that cross a segment boundary continue in the next segment",
}
BIG, LITTLE = 1, 2
T = {"Bool": "bool", "Char": "char", "Byte": "signed char", "Short": "short", "UShort": "unsigned short", "Int": "int", "Long": "long", "Float": "float", "Double": "double"}
OUT = "paimon::DataOutputStream::"
IN = "paimon::DataInputStream::"
SEG = "paimon::MemorySegmentOutputStream::"


def layout(w, st, v, t, order):
    bs = M.split(w.eng, st, v, t)
    return bs[::-1] if order == BIG else bs


def instance(ck, name, t):
    fs = [f for f in ck.prog.fns(name) if not f.get("dep")]
    return next((f for f in fs if f.get("fta") == t), fs[0] if fs else None) or ck.fn(name)


def check(ck):
    w = World(ck, "paimon::client04::")
    orders = [(ZERO, LITTLE, BIG), (ZERO, BIG, BIG), (ONE, BIG, BIG), (ONE, LITTLE, LITTLE)]
    for n, t in T.items():
        if ck.has_fn(w.ns + "Put" + n):
            for set_, arg, order in orders:
                put(ck, w, n, t, set_, arg, order)
        if ck.has_fn(w.ns + "Take" + n):
            for set_, arg, order in orders:
                take(ck, w, n, t, set_, arg, order)
        if ck.has_fn(w.ns + "Seg" + n):
            for set_, arg, order in orders:
                for size in (4, 8, 11):
                    for lead in range(size + 2):
                        seg(ck, w, n, t, set_, arg, order, size, lead)
    short_reads(ck, w)
    far_reads(ck, w)
    text(ck, w)
    strings_in(ck, w)
    seg_text(ck, w)


def put(ck, w, n, t, set_, arg, order):
    f = instance(ck, OUT + "WriteValue", t)
    size = M.size(w.eng, t)
    for limit, fail in [(64, ZERO), (64, ONE)] + [(i, ZERO) for i in range(size)]:
        st = w.state()
        v = w.var("value", t)
        for p in w.run("Put" + n, [v, set_, c(arg), c(limit), fail], st):
            w.safe(f, p, "put " + n, "R5-memory")
            if fail == ONE or limit < size:
                ck.require(p.ok is False, "R4-error", f, None, "put %s|%s" % (n, "failed" if fail == ONE else "short"),
                           "writing a %s succeeds although %s" % (t, "the stream fails" if fail == ONE else "only %d of %d bytes were accepted" % (limit, size)), p)
                continue
            if not ck.require(p.ok is True, "R4-error", f, None, "put %s|spurious" % n, "writing a %s is refused" % t, p):
                continue
            got = w.out_bytes(p, p.okval())
            want = layout(w, p.st, v, t, order)
            ck.require(w.same_all(p, got, want), "R1-layout", f, None, "put %s|%d %s" % (n, order, show(set_)), "a %s is stored as [%s] instead of %s endian" % (t, hexs(got), "big" if order == BIG else "little"), p)


def take(ck, w, n, t, set_, arg, order):
    f = instance(ck, IN + "ReadValue", t)
    size = M.size(w.eng, t)
    for extra in (0, 2):
        total = size + extra
        for pos in range(total + 1):
            st = w.state()
            bs = w.bytes("b", total)
            if t == "bool":
                bs = [M.split(w.eng, st, w.var("flag%d" % i, "bool"), "bool")[0] for i in range(total)]
            after = ("T", "after")
            st.store[after] = c(-1)
            for p in w.run("Take" + n, [w.block(st, bs), c(total), c(pos), set_, c(arg), ("addr", after)], st):
                w.safe(f, p, "take " + n, "R5-memory")
                if pos + size > total:
                    ck.require(p.ok is False, "R4-error", f, None, "take %s|beyond" % n, "reading a %s with %d bytes left succeeds" % (t, total - pos), p)
                    continue
                if not ck.require(p.ok is True, "R4-error", f, None, "take %s|spurious" % n, "reading a %s with %d bytes left is refused" % (t, total - pos), p):
                    continue
                raw = bs[pos:pos + size]
                got = layout(w, p.st, value(p, p.okval()), t, order)
                ck.require(w.same_all(p, got, raw), "R2-read", f, None, "take %s|%d %s" % (n, order, show(set_)), "a %s is not read as %s endian from its bytes: [%s]" % (t, "big" if order == BIG else "little", hexs(got)), p)
                a = w.eng.read(p.st, after, "long")
                ck.require(a == c(pos + size), "R2-read", f, None, "take %s|position" % n, "the position is %s after reading %d bytes at %d" % (show(a), size, pos), p)


def short_reads(ck, w):
    """the stream below delivers less than it was asked for, or fails"""
    for n, t in T.items():
        if not ck.has_fn(w.ns + "Short" + n):
            continue
        f = instance(ck, IN + "ReadValue", t)
        size = M.size(w.eng, t)
        for length, limit, fail in [(64, 64, ZERO), (64, 64, ONE)] + [(64, i, ZERO) for i in range(size)] + [(i, 64, ZERO) for i in range(size)]:
            for p in w.run("Short" + n, [c(length), c(limit), fail], w.state()):
                good = fail == ZERO and min(length, limit) >= size
                ck.require(p.ok is good, "R4-error", f, None, "short %s" % n, "reading a %s %s although the stream has %d bytes and delivers %d%s" % (t, "fails" if good else "succeeds", length, limit, " or fails" if fail == ONE else ""), p)
    f = ck.fn(IN + "ReadString")
    for length, limit in [(64, 64)] + [(64, i) for i in range(3)]:
        for p in w.run("ShortString", [w.block(w.state(), []), ZERO, c(length), c(limit)], w.state()):
            ck.require(p.ok is (limit >= 3), "R4-error", f, None, "short string", "reading a string of 3 bytes %s although the stream delivers %d" % ("fails" if limit >= 3 else "succeeds", limit), p)
    for nm, f in (("ShortBytes", ck.fn(IN + "ReadBytes")), ("ShortRaw", ck.fn(IN + "Read"))):
        for length, limit, fail in [(64, 64, ZERO), (64, 64, ONE)] + [(64, i, ZERO) for i in range(3)] + [(i, 64, ZERO) for i in range(3)]:
            st = w.state()
            st, l = w.obj_bytes(st, w.bytes("old", 3))
            args = [("addr", l)] if nm == "ShortBytes" else [w.block(st, w.bytes("old", 3)), c(3)]
            for p in w.run(nm, [c(length), c(limit), fail] + args, st):
                good = fail == ZERO and min(length, limit) >= 3
                ck.require(p.ok is good, "R4-error", f, None, nm, "reading 3 bytes %s although the stream has %d bytes and delivers %d" % ("fails" if good else "succeeds", length, limit), p)


def far_reads(ck, w):
    """requests and positions around the widths of the integer types"""
    f = ck.fn(IN + "Read")
    edge = [0, 1, 3, 2**8, 2**15, 2**16, 2**16 + 1, 2**24, 2**31 - 1]
    for pos in [0, 1, 5, 2**16 - 1, 2**16, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**40]:
        for size in edge:
            for length in sorted({0, 4, pos, max(pos + size - 1, 0), pos + size, pos + size + 1, 2**41}):
                st = w.state()
                for p in w.run("AskRaw", [c(length), c(pos), w.block(st, []), c(size)], st):
                    good = pos + size <= length
                    if ck.require(p.ok is good, "R4-error", f, None, "far", "reading %d bytes at %d %s although the stream has %d bytes" % (size, pos, "fails" if good else "succeeds", length), p) and good:
                        ck.require(w.same_value(p, p.okval(), c(size), "long"), "R2-read", f, None, "far|asked", "the stream is asked for %s bytes instead of %d" % (show(p.okval()), size), p)


def seg(ck, w, n, t, set_, arg, order, size, lead):
    f = instance(ck, SEG + "WriteValue", t)
    st = w.state()
    v = w.var("value", t)
    ls = w.bytes("l", lead)
    last = w.var("last", "char")
    for p in w.run("Seg" + n, [c(size), w.cvec(st, ls), v, set_, c(arg), last, w.pool(st)], st):
        w.safe(f, p, "segment " + n, "R5-memory")
        want = ls + layout(w, p.st, v, t, order) + M.split(w.eng, p.st, last, "char")
        got = w.out_bytes(p, p.val)
        ck.require(w.same_all(p, got, want), "R6-segments" if lead + M.size(w.eng, t) > size else "R1-layout", f, None, "segment %s|%d %s" % (n, order, show(set_)),
                   "after %d bytes in segments of %d a %s is stored as [%s]" % (lead, size, t, hexs(got)), p)


def text(ck, w):
    f, g = ck.fn(OUT + "WriteString"), ck.fn(OUT + "WriteBytes")
    for n in range(4):
        for limit, fail in [(64, ZERO), (64, ONE)] + [(i, ZERO) for i in range(n + 2)]:
            st = w.state()
            bs = w.bytes("b", n)
            for p in w.run("PutString", [w.string(st, bs), c(limit), fail], st):
                w.safe(f, p, "put string", "R5-memory")
                if fail == ONE or limit < max(2, n):
                    ck.require(p.ok is False, "R4-error", f, None, "put string|short", "writing a string succeeds although the stream accepted less", p)
                    continue
                if ck.require(p.ok is True, "R4-error", f, None, "put string|spurious", "writing a string of %d bytes is refused" % n, p):
                    got = w.out_bytes(p, p.okval())
                    ck.require(w.same_all(p, got, [ZERO, c(n)] + bs), "R3-text", f, None, "put string|layout", "a string of %d bytes is stored as [%s]" % (n, hexs(got)), p)
            st = w.state()
            st, l = w.obj_bytes(st, bs)
            for p in w.run("PutBytes", [w.shared(st, l), c(limit), fail], st):
                w.safe(g, p, "put bytes", "R5-memory")
                if fail == ONE or limit < n:
                    ck.require(p.ok is False, "R4-error", g, None, "put bytes|short", "writing bytes succeeds although the stream accepted less", p)
                    continue
                if ck.require(p.ok is True, "R4-error", g, None, "put bytes|spurious", "writing %d bytes is refused" % n, p):
                    got = w.out_bytes(p, p.okval())
                    ck.require(w.same_all(p, got, bs), "R3-text", g, None, "put bytes|layout", "%d bytes are stored as [%s]" % (n, hexs(got)), p)
    # lengths around the limits of the 16-bit length
    import seq
    for n in (0x7fff, 0x8000, 0xffff, 0x10000, 0x10001, 0x18000):
        st = w.state()
        l = ("T", w.name("long"))
        st.store[l] = ("s", "a" * n)
        eng = w.eng
        for p in w.run("PutStringHead", [("ref", l)], st):
            if n > 0xffff:
                ck.require(p.ok is False, "R3-text", f, None, "put string|too long", "a string of %d bytes is written although its length does not fit" % n, p)
            else:
                if ck.require(p.ok is True, "R4-error", f, None, "put string|spurious", "writing a string of %d bytes is refused" % n, p):
                    got = w.out_bytes(p, p.okval())
                    ck.require(w.same_all(p, got[:2], [c(n >> 8), c(n & 255)]), "R3-text", f, None, "put string|length", "the length of a string of %d bytes is stored as [%s]" % (n, hexs(got[:2])), p)


def strings_in(ck, w):
    f, g, h = ck.fn(IN + "ReadString"), ck.fn(IN + "ReadBytes"), ck.fn(IN + "Read")
    after = ("T", "after")
    for n in range(4):
        for have in range(5):
            st = w.state()
            bs = w.bytes("b", have)
            st.store[after] = c(-1)
            data = [w.byte("lead"), ZERO, c(n)] + bs
            for p in w.run("TakeString", [w.block(st, data), c(len(data)), ONE, ("addr", after)], st):
                w.safe(f, p, "take string", "R5-memory")
                if have < n:
                    ck.require(p.ok is False, "R4-error", f, None, "take string|beyond", "a string of %d bytes is read from %d bytes" % (n, have), p)
                elif ck.require(p.ok is True, "R4-error", f, None, "take string|spurious", "reading a string is refused", p):
                    ck.require(w.same_all(p, w.out_bytes(p, p.okval()), bs[:n]), "R3-text", f, None, "take string|content", "a string of %d bytes comes back as %s" % (n, show(p.okval())), p)
                    ck.require(w.eng.read(p.st, after, "long") == c(3 + n), "R2-read", f, None, "take string|position", "the position is %s after a string of %d bytes" % (show(w.eng.read(p.st, after, "long")), n), p)
            st = w.state()
            st, l = w.obj_bytes(st, w.bytes("old", n))
            st.store[after] = c(-1)
            for p in w.run("TakeBytes", [w.block(st, [w.byte("lead")] + bs), c(1 + have), ONE, ("addr", l), ("addr", after)], st):
                w.safe(g, p, "take bytes", "R5-memory")
                if have < n:
                    ck.require(p.ok is False, "R4-error", g, None, "take bytes|beyond", "%d bytes are read from %d" % (n, have), p)
                elif ck.require(p.ok is True, "R4-error", g, None, "take bytes|spurious", "reading bytes is refused", p):
                    ck.require(w.same_all(p, w.content(p.st, l), bs[:n]), "R3-text", g, None, "take bytes|content", "%d bytes come back as [%s]" % (n, hexs(w.content(p.st, l))), p)
                    ck.require(w.eng.read(p.st, after, "long") == c(1 + n), "R2-read", g, None, "take bytes|position", "wrong position after reading bytes", p)
            st = w.state()
            st.store[after] = c(-1)
            to = w.block(st, w.bytes("old", n))
            for p in w.run("TakeRaw", [w.block(st, [w.byte("lead")] + bs), c(1 + have), ONE, to, c(n), ("addr", after)], st):
                w.safe(h, p, "take raw", "R5-memory")
                if have < n:
                    ck.require(p.ok is False, "R4-error", h, None, "take raw|beyond", "%d bytes are read from %d" % (n, have), p)
                elif ck.require(p.ok is True, "R4-error", h, None, "take raw|spurious", "reading bytes is refused", p):
                    got = M.get(w.eng, p.st, to[1], 0, n)
                    ck.require(w.same_all(p, got, bs[:n]), "R3-text", h, None, "take raw|content", "%d bytes come back as [%s]" % (n, hexs(got)), p)
    # lengths whose upper bit is set are unsigned
    for n in (0x8000, 0xffff):
        st = w.state()
        st.store[after] = c(-1)
        data = [c(n >> 8), c(n & 255)] + [c(97)] * 40
        for p in w.run("TakeString", [w.block(st, data), c(len(data)), ZERO, ("addr", after)], st):
            ck.require(p.ok is False, "R4-error", f, None, "take string|unsigned", "a string of %d bytes is read from 40" % n, p)


def seg_text(ck, w):
    last = w.var("last", "char")
    for size in (4, 5):
        for lead in (0, 1, 3, 4, 5):
            for n in (0, 1, 2, 4, 5, 9, 13):
                st = w.state()
                ls, bs = w.bytes("l", lead), w.bytes("b", n)
                tail = M.split(w.eng, st, last, "char")
                jobs = []
                s = st.copy()
                jobs.append((ck.fn(SEG + "WriteString"), w.run("SegString", [c(size), w.cvec(s, ls), w.string(s, bs), last, w.pool(s)], s), [ZERO, c(n)] + bs, "a string"))
                s, l = w.obj_bytes(st.copy(), bs)
                jobs.append((ck.fn(SEG + "WriteBytes"), w.run("SegBytes", [c(size), w.cvec(s, ls), w.shared(s, l), last, w.pool(s)], s), bs, "a byte array"))
                s = st.copy()
                jobs.append((ck.fn(SEG + "Write", 2), w.run("SegRaw", [c(size), w.cvec(s, ls), w.block(s, bs), c(n), last, w.pool(s)], s), bs, "raw bytes"))
                for a, b in ((0, n), (1, n - 1), (1, n - 2)):
                    if b >= 0:
                        s, l = w.obj_bytes(st.copy(), bs)
                        jobs.append((ck.fn(SEG + "Write", 3), w.run("SegPart", [c(size), w.cvec(s, ls), w.shared(s, l), c(a), c(b), last, w.pool(s)], s), bs[a:a + b], "part of a segment"))
                for f, ps, want, what in jobs:
                    for p in ps:
                        w.safe(f, p, "segment text", "R5-memory")
                        got = w.out_bytes(p, p.val)
                        ck.require(w.same_all(p, got, ls + want + tail), "R6-segments" if lead + len(want) > size else "R3-text", f, None, "segment %s" % what,
                                   "after %d bytes in segments of %d, %s of %d bytes is stored as [%s]" % (lead, size, what, n, hexs(got)), p)
