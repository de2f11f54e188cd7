"""Binary rows and arrays: every field reads back as written, and the bytes are the documented layout.

Clients (inst/c31.cpp, public interface only) write fields of given kinds in a given order; the image is compared byte by byte with a reference
layout computed here, and reading starts from reference images spread over segments.  Values and text bytes are unknown."""
import itertools

import mem as M
from bytespec import World, hexs
from dom import ONE, ZERO, c
from rules import AnalysisBroken, show
from specs import cells_of, value

PREFIXES = ["common/memory/", "common/data/binary_section", "common/data/binary_string", "common/data/binary_row.", "common/data/binary_row_writer", "common/data/binary_array",
            "common/data/abstract_binary_writer", "common/data/timestamp", "common/data/decimal", "common/types/row_kind", "common/data/serializer/binary_row_serializer", "common/io/memory_segment_output_stream", "common/io/byte_array_input_stream",
            "common/io/data_input_stream"]
CLIENTS = ["c31"]
MIN_OBLIGATIONS = 500
RULES = {
    "R1-layout": "a written row or array has exactly the bytes of the documented layout",
    "R2-read": "every field reads as the value its bytes mean, wherever segment boundaries fall",
    "R3-null": "exactly the fields written as null are null",
    "R4-set": "setting a field of a row changes this field alone and makes it not null",
    "R5-copy": "a copy has the same bytes and is independent; rows are equal, and have the same hash, exactly if their bytes are equal",
    "R7-serial": "a serialized row is its length (or field count, or both) and its bytes; reading it gives the same row, and a text that ends early is an error",
    "R6-memory": "no byte outside a segment or buffer is accessed",
}
R, A = "paimon::BinaryRow::", "paimon::BinaryArray::"
BOOL, BYTE, SHORT, INT, LONG, STR, BIN, VIEW, TS3, TS9, ROW, ARR, NULL, NTS, SEGS, SEGR, DEC, KIND, NDEC = 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 14, 15, 16, 17, 10, 18, 21
TEXT = (STR, BIN, VIEW, SEGS)
SIZE = {BOOL: 1, BYTE: 1, SHORT: 2, INT: 4, LONG: 8, TS3: 8, DEC: 8}
TYPES = {BYTE: "signed char", SHORT: "short", INT: "int", LONG: "long", TS3: "long", TS9: "long", DEC: "long", ROW: "long", ARR: "long"}


def le(n, k=8):
    return [c(n >> 8 * i & 255) for i in range(k)]


DECIMALS = [le(-123456789012345678), le(987654321098765432)]


class Field:
    def __init__(self, kind, data=(), extra=0):
        self.kind, self.data, self.extra = kind, list(data), extra


class Image:
    def __init__(self, head, slot):
        self.b = list(head)
        self.slot = slot

    def put(self, off, bs):
        self.b[off:off + len(bs)] = bs

    def ref(self, pos, bs, low):
        at = len(self.b)
        self.b += list(bs) + [ZERO] * (-len(bs) % 8)
        self.put(self.slot(pos), le(at << 32 | low))

    def write(self, pos, f, width):
        o = self.slot(pos)
        k = f.kind
        if k == BOOL:
            self.put(o, f.data)
        elif k in SIZE:
            self.put(o, f.data[:SIZE[k]])
        elif k in TEXT:
            n = len(f.data)
            if n <= 7:
                self.put(o, f.data + [ZERO] * (7 - n) + [c(0x80 | n)])
            else:
                self.ref(pos, f.data, n)
        elif k == TS9:
            self.ref(pos, f.data, f.extra)
        elif k == NTS:
            self.ref(pos, [ZERO] * 8, 0)
        elif k == NDEC:
            self.ref(pos, [ZERO] * 16, 0)
        elif k == SEGR:
            self.ref(pos, f.data, len(f.data))
        elif k == ROW:
            b = row_image(2, [(0, Field(LONG, f.data)), (1, Field(NULL))])
            self.ref(pos, b, len(b))
        elif k == ARR:
            b = array_image(2, 8, [(0, Field(LONG, f.data)), (1, Field(LONG, le(f.extra)))])
            self.ref(pos, b, len(b))
        else:
            self.put(o, [ZERO] * width)


def bit(b, i):
    b[i // 8] = c(b[i // 8][1] | 1 << i % 8)


def null(f):
    return f.kind in (NULL, NTS, NDEC)


def row_image(arity, fields):
    bits = (arity + 8 + 63) // 64 * 8
    m = Image([ZERO] * (bits + 8 * arity), lambda p: bits + 8 * p)
    for p, f in fields:
        if f.kind == KIND:
            m.b[0] = f.data[0]
            continue
        if null(f):
            bit(m.b, 8 + p)
        m.write(p, f, 8)
    return m.b


def array_image(n, width, fields):
    head = 4 + (n + 31) // 32 * 4
    m = Image([ZERO] * ((head + width * n + 7) // 8 * 8), lambda p: head + width * p)
    m.put(0, le(n, 4))
    for p, f in fields:
        if null(f):
            bit(m.b, 32 + p)
        m.write(p, f, width)
    return m.b


class W(World):
    mem_rule = "R6-memory"

    def go(self, name, args, st):
        for p in self.run(name, args, st):
            self.safe(self.ck.fn(self.ns + name), p, name, "R6-memory")
            yield p

    def word(self, st, bs, t="long"):
        return M.join(self.eng, st, bs, t)

    def program(self, st, fields, nullkind=NULL):
        vals, texts = [], []
        for _, f in fields:
            if f.kind in TEXT + (SEGR,):
                vals.append(ZERO)
                texts.append(self.string(st, f.data))
            else:
                d = f.data if f.data else [ZERO] * 8
                vals.append(self.word(st, (d + [ZERO] * 8)[:8]))
                texts.append(self.string(st, []))
        return [self.vec(st, [c(p) for p, _ in fields], "int"), self.vec(st, [c(nullkind if f.kind == NULL else f.kind) for _, f in fields], "int"), self.vec(st, vals, "long"),
                self.vec(st, [c(f.extra) for _, f in fields], "int"), self.vec(st, texts, "std::string")]

    def image(self, f, p, name, want, rule, key, text):
        got = self.out_bytes(p, p.val)
        self.ck.require(self.same_all(p, got, want), rule, f, None, key, "%s: [%s] instead of [%s]" % (text, hexs(got), hexs(want)), p)


def kinds_text(fields):
    return ", ".join("%d:%s%s" % (p, {BOOL: "bool", BYTE: "byte", SHORT: "short", INT: "int", LONG: "long", STR: "string", BIN: "binary", VIEW: "view", TS3: "timestamp(3)", TS9: "timestamp(9)", ROW: "row",
                     ARR: "array", NULL: "null", NTS: "null timestamp(9)", DEC: "decimal", NDEC: "null decimal(30)", KIND: "row kind", SEGS: "string in segments", SEGR: "row in segments"}[f.kind], "(%d)" % len(f.data) if f.kind in TEXT else "") for p, f in fields)


def check(ck):
    w = W(ck, "paimon::client31::")
    v = [w.bytes("v%d" % i, 8) for i in range(4)]
    t = w.bytes("t", 40)
    layout(ck, w, v, t)
    reading(ck, w, v, t)
    setting(ck, w, v, t)
    sizes(ck, w)
    serial(ck, w, v, t)
    floats(ck, w, v)
    arrays(ck, w, v, t)


def rows(v, t):
    F = Field
    yield 1, [(0, F(BOOL, [ONE]))]
    yield 1, [(0, F(BOOL, [ZERO]))]
    for k in range(4):
        yield 1, [(0, F(KIND, [c(k)])), (0, F(LONG, v[0]))]
        yield 58, [(57, F(INT, v[1])), (0, F(KIND, [c(k)]))] + [(56, F(NULL))] * (k & 1)
    for k in (BYTE, SHORT, INT, LONG, TS3, DEC):
        d = DECIMALS if k == DEC else v
        yield 1, [(0, F(k, d[0]))]
        yield 3, [(2, F(k, d[0])), (0, F(NULL)), (1, F(k, d[1]))]
    for k in TEXT:
        for n in (0, 1, 6, 7, 8, 9, 16, 17):
            yield 2, [(0, F(k, t[:n])), (1, F(INT, v[0]))]
        yield 3, [(0, F(k, t[:9])), (1, F(k, t[10:30])), (2, F(k, t[30:34]))]
        yield 3, [(2, F(k, t[:9])), (0, F(k, t[10:18])), (1, F(NULL))]
    yield 2, [(0, F(TS9, v[0], 999999)), (1, F(TS9, v[1], 0))]
    yield 3, [(1, F(TS9, v[0], 7)), (0, F(NTS)), (2, F(STR, t[:11]))]
    yield 2, [(1, F(NDEC)), (0, F(STR, t[:9]))]
    yield 3, [(0, F(ROW, v[0])), (1, F(STR, t[:9])), (2, F(ROW, v[1]))]
    yield 2, [(0, F(ARR, v[0], 77)), (1, F(LONG, v[1]))]
    yield 2, [(1, F(ARR, v[0], 5)), (0, F(NTS))]
    for n in (55, 56, 57, 63, 64, 65, 120, 121):
        yield n, [(n - 1, F(NULL)), (0, F(LONG, v[0])), (n // 2, F(INT, v[1]))]
    yield 57, [(56, F(STR, t[:8])), (55, F(NULL))]
    yield 0, []
    inner = row_image(1, [(0, F(STR, t[:20]))])
    for off in (0, 3, 9):
        yield 2, [(0, F(SEGS, t[:19], off)), (1, F(SEGS, t[20:25], off))]
        yield 2, [(1, F(SEGR, inner, off)), (0, F(STR, t[:9]))]


def layout(ck, w, v, t):
    f = ck.fn("paimon::AbstractBinaryWriter::EnsureCapacity") if ck.prog.fns("paimon::AbstractBinaryWriter::EnsureCapacity") else ck.fn("paimon::client31::Build")
    for arity, fields in rows(v, t):
        for initial, before in [(0, []), (64, [])] + [(0, b) for b in earlier(fields, v, t)] if arity <= 8 else [(0, [])]:
            want = row_image(arity, fields)
            st = w.state()
            for p in w.go("Build", [c(arity), c(initial)] + w.program(st, before + fields) + [c(len(before)), w.pool(st, True)], st):
                what = "row of %d written with %s%s" % (arity, kinds_text(fields), " after " + kinds_text(before) if before else "")
                for q in w.go("Image", [p.val, w.pool(p.st, True)], p.st.copy()):
                    w.image(f, q, "Build", want, "R1-layout", "row|" + "/".join(sorted({str(x.kind) for _, x in fields})), what)


def earlier(fields, v, t):
    """what a writer used again may have written before: the same fields with other values, longer or shorter text, null or not"""
    if not fields:
        return
    yield list(fields)
    yield [(p, f if f.kind == KIND else Field(NULL) if not null(f) else Field(LONG, v[3])) for p, f in fields]
    if any(f.kind in TEXT for _, f in fields):
        for n in (5, 31, 40):
            yield [(p, Field(f.kind, t[:n], f.extra) if f.kind in TEXT else f) for p, f in fields]
    yield [(p, Field(STR, t[:23]) if f.kind in (TS9, NTS, NDEC, ROW, ARR, SEGR) else f) for p, f in fields]


def floats(ck, w, v):
    """the slots hold the bits of the number"""
    F = Field
    fw, fa = ck.prog.fns("paimon::BinaryRowWriter::WriteFloat")[0], ck.prog.fns("paimon::BinaryArrayWriter::WriteFloat")[0]
    img = row_image(3, [(0, F(NULL)), (1, F(INT, v[0])), (2, F(LONG, v[1]))])
    for size, off, put in ((32, 0, 0), (40, 5, 1), (8, 0, 1), (16, 3, 1)):
        st = w.state()
        for p in w.go("FloatRow", [w.word(st, v[0][:4], "float"), w.word(st, v[1], "double"), c(size), c(off), c(put), w.pool(st, True)], st):
            w.image(ck.fn(R + "SetFloat") if put else fw, p, "FloatRow", img, "R4-set" if put else "R1-layout", "FloatRow|%d" % put, "row of null, float and double")
        st = w.state()
        for q in w.go("At", [c(3), w.string(st, img), c(size), c(off), w.pool(st, True)], st):
            for name, pos, bs, t in (("FloatAt", 1, v[0][:4], "float"), ("DoubleAt", 2, v[1], "double")):
                for p in w.go(name, [q.val, c(pos)], q.st.copy()):
                    got = M.split(w.eng, p.st, value(p, p.val), t)
                    ck.require(w.same_all(p, got, bs), "R2-read", ck.fn(R + ("GetFloat" if t == "float" else "GetDouble")), None, name, "%s reads [%s] instead of [%s]" % (t, hexs(got), hexs(bs)), p)
    for t, width, k, build, read, many in (("float", 4, INT, "FloatArray", "FloatIn", "Floats"), ("double", 8, LONG, "DoubleArray", "DoubleIn", "Doubles")):
        bs = v[0][:width]
        img = array_image(3, width, [(0, F(NULL)), (1, F(k, bs)), (2, F(k, bs))])
        st = w.state()
        for p in w.go(build, [w.word(st, bs, t), w.pool(st, True)], st):
            w.image(fa, p, build, img, "R1-layout", build, "array of null and two of " + t)
        full = array_image(3, width, [(0, F(k, v[2])), (1, F(k, v[0])), (2, F(k, v[1]))])
        for size, off in ((len(img), 0), (8, 0), (16, 3)):
            for image, nulls in ((img, 1), (full, 0)):
                st = w.state()
                for q in w.go("AtArray", [w.string(st, image), c(size), c(off), w.pool(st, True)], st):
                    for p in w.go(read, [q.val, c(1)], q.st.copy()):
                        got = M.split(w.eng, p.st, value(p, p.val), t)
                        ck.require(w.same_all(p, got, bs), "R2-read", ck.fn(A + ("GetFloat" if t == "float" else "GetDouble")), None, read, "%s reads [%s] instead of [%s]" % (t, hexs(got), hexs(bs)), p)
                    g = ck.fn(A + ("ToFloatArray" if t == "float" else "ToDoubleArray"))
                    for p in w.go(many, [q.val], q.st.copy()):
                        if ck.require(p.ok == (not nulls), "R2-read", g, None, many + "|ok", "the list of an array %s nulls is %s" % ("with" if nulls else "without", "no error" if nulls else "an error"), p) and not nulls:
                            cs = [w.eng.read(p.st, x[1], None) if x[0] == "ref" else x for x in cells_of(p, p.okval())]
                            got = [b for x in cs for b in M.split(w.eng, p.st, x, t)]
                            want = v[2][:width] + v[0][:width] + v[1][:width]
                            ck.require(w.same_all(p, got, want), "R2-read", g, None, many, "list [%s] instead of [%s]" % (hexs(got), hexs(want)), p)


def be(n):
    return le(n, 4)[::-1]


def serial(ck, w, v, t):
    F = Field
    S, U = "paimon::BinaryRowSerializer::", "paimon::SerializationUtils::"
    fs, fu = [ck.fn(S + "Serialize")] + ck.prog.fns(U + "SerializeBinaryRow")[:1] * 2, [ck.fn(S + "Deserialize")] + ck.prog.fns(U + "DeserializeBinaryRow")[:1] * 2
    for arity, fields in ((0, []), (1, [(0, F(LONG, v[0]))]), (2, [(0, F(INT, v[0])), (1, F(NULL))]), (2, [(1, F(STR, t[:11])), (0, F(STR, t[11:16]))]), (57, [(56, F(NULL)), (0, F(LONG, v[0]))])):
        img = row_image(arity, fields)
        n = len(img)
        texts = [be(n) + img, be(n + 4) + be(arity) + img, be(arity) + img]
        for kind, want in enumerate(texts):
            for (size, off), chunk in itertools.product(((n, 0), (n + 9, 5), (8, 0), (8, 7), (16, 3)), (8, 64)):
                if arity > 8 and (size <= 16 or chunk == 8):
                    continue
                st = w.state()
                for p in w.go("Serial", [c(kind), c(chunk), c(arity), w.string(st, img), c(size), c(off), w.pool(st)], st):
                    if ck.require(p.ok, "R7-serial", fs[kind], None, "Serial|ok%d" % kind, "a row in segments of %d cannot be serialized" % size, p):
                        got = w.out_bytes(p, p.okval())
                        ck.require(w.same_all(p, got, want), "R7-serial", fs[kind], None, "Serial|%d" % kind, "row of %d in segments of %d: [%s] instead of [%s]" % (arity, size, hexs(got), hexs(want)), p)
            for cut in [None] + ([0, 1, 3, 4, 7, 8, len(want) - 1] if n <= 32 and kind < 2 else [0, 1, 2, 3]):
                st = w.state()
                for p in w.go("Parse", [c(kind), c(arity), w.string(st, want[:cut]), w.pool(st)], st):
                    if cut is not None:
                        ck.require(not p.ok, "R7-serial", fu[kind], None, "Parse|cut%d" % kind, "the first %d of %d bytes of a serialized row are read as a row" % (cut, len(want)), p)
                    elif ck.require(p.ok, "R7-serial", fu[kind], None, "Parse|ok%d" % kind, "a serialized row of %d cannot be read" % arity, p):
                        got = w.out_bytes(p, p.okval())
                        ck.require(w.same_all(p, got, img), "R7-serial", fu[kind], None, "Parse|%d" % kind, "row of %d reads as [%s] instead of [%s]" % (arity, hexs(got), hexs(img)), p)


def sizes(ck, w):
    for n in (0, 1, 55, 56, 57, 120, 121):
        st = w.state()
        for p in w.go("Fixed", [c(n)], st):
            ck.require(value(p, p.val) == c((n + 71) // 64 * 8 + 8 * n), "R1-layout", ck.fn(R + "CalculateFixPartSizeInBytes"), None, "Fixed", "the fixed part of %d fields has %s bytes" % (n, show(p.val)), p)


def value_of(w, st, f):
    k = f.kind
    if k == BOOL:
        return f.data[0]
    n = SIZE.get(k, 8)
    return w.eng.cast(st, M.join(w.eng, st, f.data[:n], TYPES[k]), "long", TYPES[k])


def reading(ck, w, v, t):
    for arity, fields in rows(v, t):
        img = row_image(arity, fields)
        big = len(img)
        shapes = [(big + 3, 3), (8, 0), (16, 5)] if arity < 8 else [(big, 0), (64, 5)]
        for size, off in shapes:
            st = w.state()
            ps = list(w.go("At", [c(arity), w.string(st, img), c(size), c(off), w.pool(st, True)], st))
            if len(ps) != 1:
                raise AnalysisBroken("At has %d paths" % len(ps))
            row, base = ps[0].val, ps[0].st
            what = "row with %s in segments of %d" % (kinds_text(fields), size)

            def ask(name, pos, kind, want, rule, key, fn):
                st = base.copy()
                for p in w.go(name, [row, c(pos), c(kind)], st):
                    if isinstance(want, list):
                        got = w.out_bytes(p, p.val)
                        ck.require(w.same_all(p, got, want), rule, fn, None, key, "%s: field %d reads [%s] instead of [%s]" % (what, pos, hexs(got), hexs(want)), p)
                    else:
                        got = value(p, p.val)
                        ck.require(w.same_value(p, got, want, "long"), rule, fn, None, key, "%s: field %d reads %s instead of %s" % (what, pos, show(got)[:80], show(want)[:80]), p)
            for pos, f in fields:
                k = f.kind
                if k == KIND:
                    ask("Long", 0, 52, f.data[0], "R2-read", "GetRowKind", ck.fn(R + "GetRowKind"))
                    continue
                ask("Long", pos, 50, c(int(null(f))), "R3-null", "null", ck.fn(R + "IsNullAt"))
                if null(f) or k == SEGR:
                    continue
                if k in TEXT:
                    ask("Text", pos, STR, f.data, "R2-read", "GetString", ck.fn(R + "GetString"))
                    ask("Text", pos, BIN, f.data, "R2-read", "GetBinary", ck.fn(R + "GetBinary"))
                    continue
                g = ck.fn(R + {BOOL: "GetBoolean", BYTE: "GetByte", SHORT: "GetShort", INT: "GetInt", LONG: "GetLong", TS3: "GetTimestamp", TS9: "GetTimestamp", DEC: "GetDecimal", ROW: "GetRow", ARR: "GetArray"}[k])
                ask("Long", pos, k, value_of(w, base, f), "R2-read", g["fn"], g)
                if k == INT:
                    ask("Long", pos, 23, value_of(w, base, f), "R2-read", "GetDate", ck.fn(R + "GetDate"))
                if k == TS9:
                    ask("Long", pos, 19, c(f.extra), "R2-read", g["fn"] + "|nano", g)
                if k == ROW:
                    ask("Long", pos, 32, ONE, "R3-null", g["fn"] + "|null", g)
                if k == ARR:
                    ask("Long", pos, 33, c(f.extra), "R2-read", g["fn"] + "|1", g)
                    ask("Long", pos, 43, c(2), "R2-read", g["fn"] + "|size", g)
            if arity:
                g = [x for x in ck.prog.fns(R + "AnyNull")]
                ask("Long", 0, 51, c(int(any(null(f) for _, f in fields))), "R3-null", "AnyNull", g[0])
            for sub in ([0], [arity - 1], [0, arity - 1], [arity - 1, 0], []):
                if arity == 0 and sub:
                    continue
                nulls = {p for p, f in fields if null(f)}
                st = base.copy()
                for p in w.go("AnyOf", [row, w.vec(st, [c(x) for x in sub], "int")], st):
                    ck.require(value(p, p.val) == c(int(bool(nulls & set(sub)))), "R3-null", ck.prog.fns(R + "AnyNull")[0], None, "AnyOf", "%s: a null among the fields %s is answered %s" % (what, sub, show(p.val)), p)
            st = base.copy()
            if arity and len(img) <= 60:
                st = w.state()
                for p in w.go("Copied", [c(arity), w.string(st, img), c(size), c(off), w.pool(st, True)], st):
                    w.image(ck.prog.fns(R + "Copy")[0], p, "Copied", img, "R5-copy", "Copied", "copy of a " + what)


def setting(ck, w, v, t):
    F = Field
    names = {BOOL: "SetBoolean", BYTE: "SetByte", SHORT: "SetShort", INT: "SetInt", LONG: "SetLong", NULL: "SetNullAt"}
    for arity, pos in ((1, 0), (3, 1), (60, 58)):
        for before in (F(NULL), F(LONG, v[0])):
            others = [(p, x) for p, x in ((0, F(INT, v[1])), (2, F(NULL)), (59, F(NULL))) if p < arity and p != pos]
            for k, g in names.items():
                img = row_image(arity, others + [(pos, before)])
                bits = (arity + 71) // 64 * 8
                want = list(img)
                i = 8 + pos
                want[i // 8] = c(want[i // 8][1] & ~(1 << i % 8) | (1 << i % 8 if k == NULL else 0))
                data = [ONE] + [ZERO] * 7 if k == BOOL else v[2]
                n = 8 if k == NULL else SIZE[k]
                want[bits + 8 * pos:bits + 8 * pos + n] = [ZERO] * 8 if k == NULL else data[:n]
                for size, off in ((len(img) + 8, 4), (8, 0), (16, 3)) if arity < 8 else ((len(img), 0), (64, 8)):
                    st = w.state()
                    for p in w.go("Changed", [c(arity), w.string(st, img), c(size), c(off), c(pos), c(k), w.word(st, data), w.pool(st, True)], st):
                        w.image(ck.fn(R + g), p, "Changed", want, "R4-set", g, "%s(%d) of a row of %d in segments of %d" % (g, pos, arity, size))
    for k in range(4):
        img = row_image(2, [(0, F(KIND, [c(3 - k)])), (0, F(INT, v[1])), (1, F(NULL))])
        for size, off in ((len(img) + 8, 4), (8, 0), (16, 3)):
            st = w.state()
            for p in w.go("Changed", [c(2), w.string(st, img), c(size), c(off), ZERO, c(60), c(k), w.pool(st, True)], st):
                w.image(ck.fn(R + "SetRowKind"), p, "Changed", [c(k)] + img[1:], "R4-set", "SetRowKind", "SetRowKind(%d) in segments of %d" % (k, size))
    # equality and hash
    fe, fh = ck.fn(R + "operator=="), ck.fn(R + "HashCode")
    img = row_image(2, [(0, F(LONG, le(0x1122334455667788))), (1, F(STR, [c(x) for x in b"abcdefghij"]))])
    hashes = {}
    for size, off in ((len(img), 0), (len(img) + 5, 5), (8, 0), (16, 8), (16, 3)):
        st = w.state()
        for p in w.go("Hash", [c(2), w.string(st, img), c(size), c(off), w.pool(st, True)], st):
            h = value(p, p.val)
            if h[0] != "c":
                raise AnalysisBroken("the hash %s is not known" % show(h)[:80])
            hashes.setdefault(h, (size, off))
            ck.require(len(hashes) == 1, "R5-copy", fh, None, "Hash", "the same row has another hash in segments of %d at %d" % (size, off), p)
        for i in [None] + list(range(len(img))):
            other = list(img)
            if i is not None:
                other[i] = c(other[i][1] ^ 0x40)
            if size == 16 and i is not None and i % 3:
                continue
            st = w.state()
            for p in w.go("Same", [c(2), w.string(st, img), c(size), c(off), w.string(st, other), c(len(img)), c(0), w.pool(st, True)], st):
                ck.require(value(p, p.val) == c(int(i is None)), "R5-copy", fe, None, "Same",
                           "rows %s are %s (segments of %d)" % ("that differ in byte %s" % i if i is not None else "with the same bytes", "equal" if i is not None else "different", size), p)
        st = w.state()
        for p in w.go("Same", [c(2), w.string(st, img), c(size), c(off), w.string(st, img[:24]), c(len(img)), c(0), w.pool(st, True)], st):
            ck.require(value(p, p.val) == ZERO, "R5-copy", fe, None, "Same|size", "rows of different size are equal", p)


def arrays(ck, w, v, t):
    F = Field
    fb = ck.fn("paimon::BinaryArrayWriter::Complete")
    nul = {1: 20, 2: 22, 4: 23, 8: NULL}
    cases = []
    for k, width in ((BOOL, 1), (BYTE, 1), (SHORT, 2), (INT, 4), (LONG, 8), (TS3, 8), (DEC, 8)):
        d = [[ONE], [ZERO]] if k == BOOL else DECIMALS if k == DEC else v
        cases += [(1, width, [(0, F(k, d[0]))]), (3, width, [(2, F(k, d[0])), (1, F(NULL)), (0, F(k, d[1]))]), (5, width, [(4, F(k, d[1])), (3, F(k, d[0]))])]
    for k in (STR, BIN, SEGS):
        for n in (0, 7, 8, 9, 16):
            cases.append((2, 8, [(0, F(k, t[:n])), (1, F(k, t[20:29]))]))
        cases.append((3, 8, [(1, F(k, t[:9])), (0, F(NULL)), (2, F(k, t[10:13]))]))
    cases += [(2, 8, [(0, F(TS9, v[0], 123456)), (1, F(NTS))]), (2, 8, [(1, F(ROW, v[0])), (0, F(ROW, v[1]))]), (2, 8, [(1, F(ARR, v[0], 3)), (0, F(ARR, v[1], 9))]), (2, 8, [(1, F(NDEC)), (0, F(DEC, DECIMALS[0]))]), (0, 4, []), (0, 8, [])]
    for n in (31, 32, 33, 64, 65):
        cases += [(n, 1, [(n - 1, F(NULL)), (0, F(BYTE, v[0])), (n - 2, F(BYTE, v[1]))]), (n, 8, [(n - 1, F(LONG, v[0])), (n - 2, F(NULL))])]
    for n, width, fields in cases:
        img = array_image(n, width, fields)
        what = "array of %d with %s" % (n, kinds_text(fields))
        for before in [[]] + [b for b in earlier(fields, v, t) if width == 8 or b == fields or n < 8 and all(x.kind in (NULL, f.kind) for (_, x), (_, f) in zip(b, fields))]:
            st = w.state()
            for p in w.go("BuildArray", [c(n), c(width)] + w.program(st, before + fields, nul[width]) + [c(len(before)), w.pool(st, True)], st):
                for q in w.go("ImageArray", [p.val, w.pool(p.st, True)], p.st.copy()):
                    w.image(fb, q, "BuildArray", img, "R1-layout", "array|%d" % width, what + (" after " + kinds_text(before) if before else ""))
        for size, off in ((len(img) + 3, 3), (8, 0), (16, 4)) if n < 8 else ((len(img), 0),):
            st = w.state()
            ps = list(w.go("AtArray", [w.string(st, img), c(size), c(off), w.pool(st, True)], st))
            if len(ps) != 1:
                raise AnalysisBroken("AtArray has %d paths" % len(ps))
            arr, base = ps[0].val, ps[0].st

            def ask(name, pos, kind, want, rule, key, fn):
                for p in w.go(name, [arr, c(pos), c(kind)], base.copy()):
                    if isinstance(want, list):
                        got = w.out_bytes(p, p.val)
                        ck.require(w.same_all(p, got, want), rule, fn, None, key, "%s in segments of %d: element %d reads [%s] instead of [%s]" % (what, size, pos, hexs(got), hexs(want)), p)
                    else:
                        got = value(p, p.val)
                        ck.require(w.same_value(p, got, want, "long"), rule, fn, None, key, "%s in segments of %d: element %d reads %s instead of %s" % (what, size, pos, show(got)[:80], show(want)[:80]), p)
            ask("LongArray", 0, 99, c(n), "R2-read", "Size", ck.fn(A + "Size"))
            ask("LongArray", 0, 51, c(int(any(null(f) for _, f in fields))), "R3-null", "array AnyNull", ck.fn(A + "AnyNull"))
            for pos, f in fields:
                ask("LongArray", pos, 50, c(int(null(f))), "R3-null", "array null", ck.fn(A + "IsNullAt"))
                if null(f):
                    continue
                if f.kind in TEXT:
                    ask("TextArray", pos, STR, f.data, "R2-read", "array GetString", ck.fn(A + "GetString"))
                    ask("TextArray", pos, BIN, f.data, "R2-read", "array GetBinary", ck.fn(A + "GetBinary"))
                    continue
                g = ck.fn(A + {BOOL: "GetBoolean", BYTE: "GetByte", SHORT: "GetShort", INT: "GetInt", LONG: "GetLong", TS3: "GetTimestamp", TS9: "GetTimestamp", DEC: "GetDecimal", ROW: "GetRow", ARR: "GetArray"}[f.kind])
                ask("LongArray", pos, f.kind, value_of(w, base, f), "R2-read", g["fn"], g)
                if f.kind == INT:
                    ask("LongArray", pos, 23, value_of(w, base, f), "R2-read", "array GetDate", ck.fn(A + "GetDate"))
                if f.kind == ARR:
                    ask("LongArray", pos, 33, c(f.extra), "R2-read", "array GetArray|1", g)
                    ask("LongArray", pos, 43, c(2), "R2-read", "array GetArray|size", g)
                if f.kind == TS9:
                    ask("LongArray", pos, 19, c(f.extra), "R2-read", g["fn"] + "|nano", g)
            if n < 8 or n == 33:
                st = w.state()
                for p in w.go("CopiedArray", [w.string(st, img), c(size), c(off), w.pool(st, True)], st):
                    w.image(ck.prog.fns(A + "Copy")[0], p, "CopiedArray", img, "R5-copy", "CopiedArray", "copy of an " + what)
            if n and all(f.kind in (LONG, NULL) for _, f in fields) and width == 8:
                st = w.state()
                for p in w.go("FromOther", [w.string(st, img), c(size), c(off), w.pool(st, True)], st):
                    w.image(ck.prog.fns(A + "FromLongArray")[0], p, "FromOther", img, "R5-copy", "FromOther", "longs of an " + what)
            if n in (1, 3) and fields[0][1].kind in (BOOL, BYTE, SHORT, INT, LONG):
                k = fields[0][1].kind
                name, fn = {BOOL: ("Booleans", "ToBooleanArray"), BYTE: ("Chars", "ToByteArray"), SHORT: ("Shorts", "ToShortArray"), INT: ("Ints", "ToIntArray"), LONG: ("Longs", "ToLongArray")}[k]
                g = ck.fn(A + fn)
                bad = any(null(f) for _, f in fields)
                for p in w.go(name, [arr], base.copy()):
                    if not ck.require(p.ok == (not bad), "R2-read", g, None, fn + "|ok", "%s: %s is %s" % (what, fn, "no error" if bad else "an error"), p) or bad:
                        continue
                    cs = [w.eng.read(p.st, x[1], None) if x[0] == "ref" else x for x in cells_of(p, p.okval())]
                    got = [b for x in cs for b in M.split(w.eng, p.st, x, {BOOL: "char", BYTE: "char", SHORT: "short", INT: "int", LONG: "long"}[k])]
                    want = [b for _, f in sorted(fields, key=lambda x: x[0]) for b in f.data[:width]]
                    ck.require(w.same_all(p, got, want), "R2-read", g, None, fn, "%s: %s gives [%s] instead of [%s]" % (what, fn, hexs(got), hexs(want)), p)
    for name, k, width in (("FromInts", INT, 4), ("FromLongs", LONG, 8)):
        for n in (0, 1, 2, 3, 4):
            fields = [(i, F(k, v[i])) for i in range(n)]
            st = w.state()
            vals = [w.word(st, x[:width], TYPES[k]) for x in v[:n]]
            for p in w.go(name, [w.vec(st, vals, TYPES[k]), w.pool(st, True)], st):
                w.image(ck.prog.fns(A + ("FromIntArray" if k == INT else "FromLongArray"))[0], p, name, array_image(n, width, fields), "R1-layout", name, "%s of %d values" % (name, n))
