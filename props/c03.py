"""Input streams never read outside their data and keep an exact position.

Every input-stream class is analysed path-sensitively with the class
invariant assumed at entry.  For each (path, specification case) pair that can
occur together the outcome has to be the specified one: success exactly when
the requested bytes exist, the bytes come from the right place, the position
afterwards, and no effect when the request is rejected."""
import models
from dom import NULL, ONE, ZERO, add, c, contains, ge, mk_eq0, mk_ge0, not_, op, strip_t, sub
from rules import AnalysisBroken, Path, show, teq

PREFIXES = ["common/io/", "common/memory/bytes"]
MIN_OBLIGATIONS = 60
RULES = {
    "R1-bytearray": "ByteArrayInputStream: constructor, Seek, Read, positioned Read, ReadAsync against the stream contract",
    "R2-offset": "OffsetInputStream: window creation, Seek, Read, positioned Read, ReadAsync stay inside the window and in step with the wrapped stream",
    "R3-buffered": "BufferedInputStream: copies stay inside the filled buffer and the caller's buffer, position bookkeeping, progress of the read loop",
    "R4-data": "DataInputStream: boundary check before each read, exact length, byte order",
}
SEEK = {"SET": 0, "CUR": 1, "END": 2}
LEN_MAX = c(2 ** 62)


def copies(p):
    """(dst, src, n, event) of every memory copy on the path"""
    out = []
    for e in p.events("mem"):
        if e.fn in ("memcpy", "memmove"):
            out.append((e.args[0], e.args[1], e.args[2], e))
        elif e.fn == "copy_n":
            out.append((e.args[2], e.args[0], e.args[1], e))
        elif e.fn == "copy":
            out.append((e.args[2], e.args[0], sub(e.args[1], e.args[0]), e))
    return out


class Obj:
    """observer values of an object in a state"""

    def __init__(self, ck, cls, eng, this):
        self.ck, self.cls, self.eng, self.this = ck, cls, eng, this

    def get(self, st, name):
        f = self.ck.fn("%s::%s" % (self.cls, name), 0)
        s = st.copy()
        n = len(s.events)
        res = self.eng.run(f, this=self.this, st=s)
        vals = []
        for k, s2, v in res:
            if v is not None and v[0] == "okv":
                vals.append((s2, v[1]))
            elif v is not None and v[0] not in ("err",) and s2.facts.truth(op("isok", v)) is not False:
                vals.append((s2, v))
        if len(vals) != 1:
            raise AnalysisBroken("%s::%s has %d results" % (self.cls, name, len(vals)))
        return vals[0][1]


def oneof(*fs):
    for f in fs:
        m = f()
        if m:
            return m
    return None


def check_seek(ck, rule, o, paths, f, org, off, pos0, len0, extra_ok=None, may_fail=False):
    cases = []
    for name, k in SEEK.items():
        tgt = add({0: ZERO, 1: pos0, 2: len0}[k], off)
        g = [mk_eq0(sub(org, c(k)))]

        def okcase(p, tgt=tgt):
            if p.ok is False:
                if may_fail and failed_inner(p):
                    return None if teq(p, o.get(p.st, "GetPos"), pos0) else "position changes although the seek failed"
                return "a seek to a position inside the stream is rejected"
            np = o.get(p.st, "GetPos")
            if not teq(p, np, tgt):
                return "position after the seek is %s, not %s" % (show(np), show(tgt))
            return extra_ok(p, tgt) if extra_ok else None

        def badcase(p):
            if p.ok is not False:
                return "a seek outside the stream is accepted"
            np = o.get(p.st, "GetPos")
            if not teq(p, np, pos0):
                return "a rejected seek leaves the position at %s" % show(np)
        cases.append((name + " inside", g + [ge(tgt, ZERO), ge(len0, tgt)], okcase))
        cases.append((name + " before start", g + [mk_ge0(sub(sub(ZERO, tgt), ONE))], badcase))
        cases.append((name + " past end", g + [mk_ge0(sub(sub(tgt, len0), ONE))], badcase))

    def unknown(p):
        return None if p.ok is False else "an unknown seek origin is accepted"
    cases.append(("unknown origin", [not_(mk_eq0(sub(org, c(k)))) for k in (0, 1, 2)], unknown))
    ck.cases(rule, f, paths, cases)


def failed_inner(p):
    """the path contains a failure reported by the wrapped stream"""
    return any(a[0] == "op" and a[1] == "isok" and b is False for a, b in p.st.facts.atoms.items())


def params(f):
    return [("v", p["n"] or "arg%d" % i) for i, p in enumerate(f["params"])]


def check(ck):
    bytearray_stream(ck)
    offset_stream(ck)
    buffered_stream(ck)
    data_stream(ck)


# ------------------------------------------------------------------ R1
def bytearray_stream(ck):
    C = "paimon::ByteArrayInputStream"
    R = "R1-bytearray"
    this = ("D", ("v", "this"))
    # constructor
    f = ck.fn(C + "::ByteArrayInputStream", 2)
    eng = ck.engine(split_wraps=True)
    b, n = params(f)
    for p in ck.run(f, eng, this=this):
        o = Obj(ck, C, eng, this)
        ck.require(teq(p, o.get(p.st, "GetPos"), ZERO), R, f, None, f["fn"] + "|pos", "a new stream does not start at position 0", p)
        ck.require(teq(p, o.get(p.st, "Length"), n), R, f, None, f["fn"] + "|len", "Length() is not the given length", p)
        ck.require(teq(p, o.get(p.st, "GetRawData"), b), R, f, None, f["fn"] + "|raw", "GetRawData() is not the given buffer", p)

    def prepare():
        eng = ck.engine(split_wraps=True)
        st = eng.new_state()
        o = Obj(ck, C, eng, this)
        pos0, len0, raw0 = o.get(st, "GetPos"), o.get(st, "Length"), o.get(st, "GetRawData")
        for t in (pos0, sub(len0, pos0), sub(LEN_MAX, len0)):
            st.facts.assume(mk_ge0(t), True)
        return eng, st, o, pos0, len0, raw0

    eng, st, o, pos0, len0, raw0 = prepare()
    f = ck.fn(C + "::Seek", 2)
    off, org = params(f)
    check_seek(ck, R, o, ck.run(f, eng, this=this, st=st), f, org, off, pos0, len0)

    eng, st, o, pos0, len0, raw0 = prepare()
    f = ck.fn(C + "::Read", 2)
    buf, size = params(f)

    def in_range(p):
        if p.ok is not True:
            return "a read of available bytes is rejected"
        if not teq(p, p.okval(), size):
            return "returned count is %s" % show(p.okval())
        if not teq(p, o.get(p.st, "GetPos"), add(pos0, size)):
            return "position afterwards is %s" % show(o.get(p.st, "GetPos"))
        return one_copy(p, buf, raw0, size)

    def out_range(p):
        if p.ok is not False:
            return "a read past the end succeeds"
        if copies(p):
            return "bytes past the end are copied"
        if not teq(p, o.get(p.st, "GetPos"), pos0):
            return "a rejected read moves the position"
    ck.cases(R, f, ck.run(f, eng, this=this, st=st), [
        ("available", [ge(sub(len0, pos0), size)], in_range),
        ("not available", [not_(ge(sub(len0, pos0), size))], out_range)])

    for name, np in (("Read", 3), ("ReadAsync", 4)):
        eng, st, o, pos0, len0, raw0 = prepare()
        f = ck.fn(C + "::" + name, np)
        ps = params(f)
        buf, size, off = ps[0], ps[1], ps[2]
        base = sub(raw0, pos0)

        def verdict(p):
            if name == "Read":
                return p.ok
            cbs = [e for e in p.events("call") if (e.fn or "").endswith("operator()")]
            if len(cbs) != 1:
                return "callback"
            v = cbs[0].args[0] if cbs[0].args else None
            if v is None:
                return "callback"
            if v[0] in ("ok", "okv"):
                return True
            if v[0] == "err":
                return False
            return p.st.facts.truth(op("isok", v))

        def inr(p):
            r = verdict(p)
            if r == "callback":
                return "the callback is not invoked exactly once"
            if r is not True:
                return "a read of available bytes is rejected"
            if name == "Read" and not teq(p, p.okval(), size):
                return "returned count is %s" % show(p.okval())
            if not teq(p, o.get(p.st, "GetPos"), pos0):
                return "a positioned read moves the position"
            return one_copy(p, buf, add(base, off), size)

        def outr(p):
            r = verdict(p)
            if r == "callback":
                return "the callback is not invoked exactly once"
            if r is not False:
                return "a read past the end succeeds"
            if copies(p):
                return "bytes past the end are copied"
            if not teq(p, o.get(p.st, "GetPos"), pos0):
                return "a positioned read moves the position"
        ck.cases(R, f, ck.run(f, eng, this=this, st=st), [
            ("available", [ge(sub(len0, off), size)], inr),
            ("not available", [not_(ge(sub(len0, off), size))], outr)])


def one_copy(p, dst, src, n):
    cs = copies(p)
    if len(cs) != 1:
        if any(e.kind == "loop" for e in p.st.events):
            raise AnalysisBroken("bytes are moved by a loop the rule does not know")
        return "%d copies of the requested bytes" % len(cs)
    d, s, k, e = cs[0]
    if not teq(p, d, dst):
        return "bytes are copied to %s" % show(d)
    if not teq(p, s, src):
        return "bytes are copied from %s instead of %s" % (show(s), show(src))
    if not teq(p, k, n):
        return "%s bytes are copied" % show(k)
    return None


# ------------------------------------------------------------------ R2
def offset_stream(ck):
    C = "paimon::OffsetInputStream"
    R = "R2-offset"
    H = dict(models.IN_STREAM)
    # Create
    f = ck.fn(C + "::Create", 3)
    eng = ck.engine(handlers=H, split_wraps=True)
    st = eng.new_state()
    ps = params(f)
    length, off = ps[1], ps[2]
    wl = ("D", ("v", "&" + (f["params"][0]["n"] or "wrapped")))
    w = eng.read(st, wl, f["params"][0]["t"])
    inner = eng.deref(w)
    total = models.stream_len(eng, st, inner)
    paths = ck.run(f, eng, st=st)
    notnull = [op("nonnull", w)]

    def made(p):
        if p.ok is not True:
            return None if failed_inner(p) else "a valid window is rejected"
        obj = eng.deref(p.okval())
        o = Obj(ck, C, eng, obj)
        ln = o.get(p.st, "Length")
        want = sub(total, off) if p.st.facts.truth(mk_eq0(add(length, ONE))) is True else length
        if p.st.facts.truth(mk_eq0(add(length, ONE))) is None:
            return None
        if not teq(p, ln, want):
            return "window length is %s, not %s" % (show(ln), show(want))
        if not teq(p, o.get(p.st, "GetPos"), ZERO):
            return "the window does not start at position 0"
        wp = models.stream_pos(eng, p.st, inner)
        if not teq(p, wp, off):
            return "the wrapped stream is at %s, not at the window start" % show(wp)

    def rej(p):
        return None if p.ok is False else "an invalid window is accepted"
    lt = lambda a, b: mk_ge0(sub(sub(b, a), ONE))
    ck.cases(R, f, paths, [
        ("null stream", [not_(op("nonnull", w))], rej),
        ("negative offset", notnull + [lt(off, ZERO)], rej),
        ("length below -1", notnull + [lt(length, c(-1))], rej),
        ("offset past the end", notnull + [ge(off, ZERO), lt(total, off)], rej),
        ("window past the end", notnull + [ge(off, ZERO), ge(length, ZERO), lt(total, add(off, length))], rej),
        ("window to the end", notnull + [ge(off, ZERO), ge(total, off), mk_eq0(add(length, ONE))], made),
        ("window", notnull + [ge(off, ZERO), ge(length, ZERO), ge(total, add(off, length))], made),
    ])

    # methods: discover the wrapped stream and the offset from an object made by Create
    made_p = [p for p in paths if p.ok is True]
    fields = {}
    for p in made_p:
        obj = eng.deref(p.okval())
        for k, v in p.st.store.items():
            if k[0] == "F" and k[1] == obj:
                if v == w:
                    fields["wrapped"] = k[2]
                elif teq(p, v, off) and v != ZERO:
                    fields["offset"] = k[2]
    if set(fields) != {"wrapped", "offset"}:
        raise AnalysisBroken("OffsetInputStream: wrapped stream / offset members not found")
    this = ("D", ("v", "this"))

    def prepare():
        eng = ck.engine(handlers=H, split_wraps=True)
        st = eng.new_state()
        o = Obj(ck, C, eng, this)
        pos0, len0 = o.get(st, "GetPos"), o.get(st, "Length")
        eng.ttype.setdefault(len0, "long")
        w = eng.read(st, ("F", this, fields["wrapped"]), "paimon::InputStream *")
        off0 = eng.read(st, ("F", this, fields["offset"]), "long")
        inner = eng.deref(w)
        total = models.stream_len(eng, st, inner)
        wp = models.stream_pos(eng, st, inner)
        for t in (pos0, sub(len0, pos0), off0, sub(total, add(off0, len0))):
            st.facts.assume(mk_ge0(t), True)
        st.facts.assume(mk_eq0(sub(wp, add(off0, pos0))), True)
        return eng, st, o, pos0, len0, off0, inner

    eng, st, o, pos0, len0, off0, inner = prepare()
    f = ck.fn(C + "::Seek", 2)
    so, org = params(f)

    def insync(p, tgt):
        wp = models.stream_pos(p.eng, p.st, inner)
        if not teq(p, wp, add(off0, tgt)):
            return "the wrapped stream ends up at %s instead of %s" % (show(wp), show(add(off0, tgt)))
    check_seek(ck, R, o, ck.run(f, eng, this=this, st=st), f, org, so, pos0, len0, insync, may_fail=True)

    eng, st, o, pos0, len0, off0, inner = prepare()
    f = ck.fn(C + "::Read", 2)
    buf, size = params(f)

    def sreads(p, kind):
        return [e for e in p.events("sread") if e.fn == kind and e.obj == inner]

    def rd_in(p):
        rs = sreads(p, "Read")
        if p.ok is False and not failed_inner(p):
            return "a read of available bytes is rejected"
        if not rs and failed_inner(p):
            return None
        if len(rs) != 1 or not (teq(p, rs[0].args[0], buf) and teq(p, rs[0].args[1], size)):
            return "the wrapped stream is not read once with the caller's buffer and size"
        if p.ok is True:
            if not teq(p, p.okval(), rs[0].res):
                return "returned count is not the wrapped stream's"
            np, wp = o.get(p.st, "GetPos"), models.stream_pos(p.eng, p.st, inner)
            if not teq(p, add(off0, np), wp):
                return "position %s is out of step with the wrapped stream at %s" % (show(np), show(wp))

    def rd_out(p):
        if p.ok is not False:
            return "a read past the window succeeds"
        if sreads(p, "Read") or sreads(p, "pread"):
            return "the wrapped stream is read past the window"
        if not teq(p, o.get(p.st, "GetPos"), pos0):
            return "a rejected read moves the position"
    ck.cases(R, f, ck.run(f, eng, this=this, st=st), [
        ("available", [ge(sub(len0, pos0), size)], rd_in),
        ("not available", [not_(ge(sub(len0, pos0), size))], rd_out)])

    for name, np in (("Read", 3), ("ReadAsync", 4)):
        eng, st, o, pos0, len0, off0, inner = prepare()
        f = ck.fn(C + "::" + name, np)
        ps = params(f)
        buf, size, po = ps[0], ps[1], ps[2]

        def uses(p):
            if name == "Read":
                return [(e.args[0], e.args[1], e.args[2]) for e in p.events("sread") if e.obj == inner]
            return [(e.args[0], e.args[1], e.args[2]) for e in p.events("call")
                    if (e.fn or "").endswith("InputStream::ReadAsync")]

        def cbs(p):
            return [e for e in p.events("call") if (e.fn or "").endswith("operator()")]

        def inr(p):
            us = uses(p)
            if len(us) != 1:
                return "the wrapped stream is read %d times" % len(us)
            if name == "ReadAsync" and cbs(p):
                return "the callback is invoked although the read was handed on"
            b, n, at = us[0]
            if not (teq(p, b, buf) and teq(p, n, size)):
                return "wrong buffer or size handed to the wrapped stream"
            if not teq(p, at, add(off0, po)):
                return "the wrapped stream is read at %s instead of %s" % (show(at), show(add(off0, po)))
            if not teq(p, o.get(p.st, "GetPos"), pos0):
                return "a positioned read moves the position"

        def outr(p):
            if uses(p):
                return "the wrapped stream is read outside the window"
            if name == "Read":
                return None if p.ok is False else "a read outside the window succeeds"
            cb = cbs(p)
            if len(cb) != 1:
                return "the callback is invoked %d times" % len(cb)
            v = cb[0].args[0]
            if not (v[0] == "err" or p.st.facts.truth(op("isok", v)) is False):
                return "the callback reports success"
        ck.cases(R, f, ck.run(f, eng, this=this, st=st), [
            ("available", [ge(sub(len0, po), size)], inr),
            ("not available", [not_(ge(sub(len0, po), size))], outr)])


# ------------------------------------------------------------------ R3
def buffered_stream(ck):
    C = "paimon::BufferedInputStream"
    R = "R3-buffered"
    H = dict(models.IN_STREAM)
    this = ("D", ("v", "this"))
    rec = ck.record(C)
    names = {f["n"]: f["t"] for f in rec["fields"]}
    for n in ("buffer_size_", "pos_", "count_", "buffer_", "in_"):
        if n not in names:
            raise AnalysisBroken("BufferedInputStream member %s is gone" % n)

    f = ck.fn(C + "::BufferedInputStream", 3)
    eng = ck.engine(handlers=H, split_wraps=True)
    for p in ck.run(f, eng, this=this):
        bs = params(f)[1]
        p.st.facts.assume(ge(bs, ONE), True)
        sizes = [e for e in p.events("construct") if e.fn == "paimon::Bytes"]
        good = len(sizes) == 1 and teq(p, sizes[0].args[0] if sizes[0].args[0][0] != "ref" else eng.argval(p.st, sizes[0].args[0]), p.read(("F", this, "buffer_size_")))
        ck.require(good, R, f, None, f["fn"] + "|buffer", "the buffer is not allocated with the recorded buffer size", p)
        ck.require(teq(p, p.read(("F", this, "buffer_size_")), bs), R, f, None, f["fn"] + "|size", "the recorded buffer size is not the given one", p)
        for n in ("pos_", "count_"):
            ck.require(p.read(("F", this, n)) == ZERO, R, f, None, f["fn"] + "|" + n, "a new stream does not start with an empty buffer", p)

    def prepare():
        eng = ck.engine(handlers=H, split_wraps=True)
        st = eng.new_state()
        F = lambda n, t: eng.read(st, ("F", this, n), t)
        bs, pos, cnt = F("buffer_size_", "int"), F("pos_", "int"), F("count_", "int")
        inner = eng.deref(F("in_", "paimon::InputStream *"))
        wp = models.stream_pos(eng, st, inner)
        total = models.stream_len(eng, st, inner)
        for t in (sub(bs, ONE), pos, sub(cnt, pos), sub(bs, cnt), sub(wp, cnt), sub(LEN_MAX, wp)):
            st.facts.assume(mk_ge0(t), True)
        return eng, st, Obj(ck, C, eng, this), bs, pos, cnt, inner, wp, total

    def inv(p, inner):
        eng = p.eng
        F = lambda n: eng.read(p.st, ("F", this, n), "int")
        bs, pos, cnt = F("buffer_size_"), F("pos_"), F("count_")
        for t, m in ((pos, "buffer position negative"), (sub(cnt, pos), "buffer position past the filled part"),
                     (sub(bs, cnt), "filled part larger than the buffer")):
            if not p.st.facts.entails_ge0(t):
                return m + " (%s >= 0 not guaranteed)" % show(t)
        return None

    # Seek
    eng, st, o, bs, pos, cnt, inner, wp, total = prepare()
    pos0 = o.get(st, "GetPos")
    f = ck.fn(C + "::Seek", 2)
    off, org = params(f)
    cases = []
    for name, k in SEEK.items():
        tgt = add({0: ZERO, 1: pos0, 2: total}[k], off)

        def after(p, tgt=tgt):
            if p.ok is False:
                return None if failed_inner(p) else "a seek is rejected although the wrapped stream accepts it"
            np = o.get(p.st, "GetPos")
            if not teq(p, np, tgt):
                return "position after the seek is %s, not %s" % (show(np), show(tgt))
            m = inv(p, inner)
            if m:
                return m
            # the buffered bytes must still belong to the position of the wrapped stream
            cn = p.eng.read(p.st, ("F", this, "count_"), "int")
            if cn != ZERO and models.stream_pos(p.eng, p.st, inner) != wp:
                return "buffered bytes of the old position survive the seek"
        cases.append((name, [mk_eq0(sub(org, c(k)))], after))
    ck.cases(R, f, ck.run(f, eng, this=this, st=st), cases)

    # Read
    eng, st, o, bs, pos, cnt, inner, wp, total = prepare()
    pos0 = o.get(st, "GetPos")
    f = ck.fn(C + "::Read", 2)
    buf, size = params(f)
    st.facts.assume(ge(c(2 ** 31 - 1), size), True)
    paths = ck.run(f, eng, this=this, st=st)
    nok = 0
    for p in paths:
        if p.ok is True:
            nok += 1
            ck.require(teq(p, p.okval(), size), R, f, None, f["fn"] + "|count", "success is reported with count %s instead of the requested size" % show(p.okval()), p)
            np = o.get(p.st, "GetPos")
            ck.require(teq(p, np, add(pos0, size)), R, f, None, f["fn"] + "|pos", "position after the read is %s" % show(np), p)
        elif p.ok is None:
            ck.require(False, R, f, None, f["fn"] + "|verdict", "result %s is neither success nor failure" % show(p.val), p)
        if p.ok is True:
            m = inv(p, inner)
            ck.require(not m, R, f, None, f["fn"] + "|inv", str(m), p)
        if p.ok is False:
            reads = [e for e in p.st.events if e.kind == "sread"]
            last_failed = reads and p.st.facts.truth(op("isok", p.val)) is False and p.val[0] != "err"
            if not last_failed:
                np = o.get(p.st, "GetPos") if not failed_inner(p) else sub(add(models.stream_pos(eng, p.st, inner),
                                                                         p.read(("F", this, "pos_"))), p.read(("F", this, "count_")))
                ck.require(p.st.facts.entails_ge0(sub(np, pos0)), R, f, None, f["fn"] + "|failpos",
                           "after a failed read the position %s may lie before bytes already delivered" % show(np), p)
            if not failed_inner(p):
                q = Path(eng, p.kind, p.st.copy(), p.val)
                feas = q.st.facts.assume(ge(sub(total, pos0), size), True)
                for e in reads:
                    feas = feas and q.st.facts.assume(mk_eq0(sub(e.res, e.args[1])), True)
                ck.require(not feas, R, f, None, f["fn"] + "|spurious", "a read of available bytes is rejected", q)
    if not nok:
        raise AnalysisBroken("BufferedInputStream::Read never succeeds")
    if not eng.loops:
        raise AnalysisBroken("BufferedInputStream::Read: the read loop is gone")
    data_loc = None
    for lid, info in eng.loops.items():
        for s in info["back"]:
            q = Path(eng, "back", s, None)
            evs = s.events[info["nevents"]:]
            moved = [e for e in evs if e.kind in ("mem", "sread")]
            prog = ZERO
            progress = None
            for l, sym in info["head"].items():
                nv = s.store.get(l, sym)
                if l[0] == "V" and nv != sym and s.facts.truth(mk_ge0(sub(sub(nv, sym), ONE))) is True:
                    progress = (l, sym, nv)
            ck.require(progress is not None, R, f, info["node"].get("l"), f["fn"] + "|progress",
                       "an iteration of the read loop can make no progress (endless loop at the end of the stream)", q)
            if progress is None:
                continue
            _, done, ndone = progress
            outs = []
            for e in moved:
                if e.kind == "mem" and e.fn in ("memcpy", "memmove"):
                    d, src, n = e.args[0], e.args[1], e.args[2]
                    b2, so = eng.split_ptr(src)
                    outs.append(("copy", d, n, src, e))
                elif e.kind == "sread":
                    d, n = e.args[0], e.args[1]
                    if contains(d, buf):
                        outs.append(("direct", d, e.res, None, e))
                    else:
                        # refill: must not exceed the buffer
                        ff = e.facts
                        okfill = ff.entails_ge0(sub(bs, n)) and ff.entails_ge0(n)
                        ck.require(okfill, R, f, e.line, f["fn"] + "|fill", "a refill may read more than the buffer holds: %s" % show(n), q)
            ck.require(len(outs) == 1, R, f, info["node"].get("l"), f["fn"] + "|once", "one iteration delivers %d pieces" % len(outs), q)
            for kind, d, n, src, e in outs:
                ck.require(teq(q, d, add(buf, done)), R, f, e.line, f["fn"] + "|dst", "bytes are delivered at %s instead of right after the previous ones" % show(d), q)
                ck.require(teq(q, sub(ndone, done), n), R, f, e.line, f["fn"] + "|len", "the count advances by %s for %s bytes" % (show(sub(ndone, done)), show(n)), q)
                ck.require(e.facts.entails_ge0(sub(sub(size, done), n if kind == "copy" else e.args[1])), R, f, e.line, f["fn"] + "|dstbound",
                           "more bytes than the caller asked for may be delivered", q)
                if kind == "copy":
                    b2, so = eng.split_ptr(src)
                    if b2 is None:
                        so = ZERO
                    # the source is the buffer at the current buffer position
                    filled = [x for x in evs if x.kind == "sread" and x is not e and not contains(x.args[0], buf)]
                    cur = s.store.get(("F", this, "pos_"))
                    cn = s.store.get(("F", this, "count_"))
                    ck.require(cur is not None and teq(q, cur, add(so, n)), R, f, e.line, f["fn"] + "|advance",
                               "the buffer position does not advance past the delivered bytes", q)
                    cnv = cn if cn is not None else eng.read(s, ("F", this, "count_"), "int")
                    ck.require(s.facts.entails_ge0(sub(cnv, add(so, n))) and s.facts.entails_ge0(so), R, f, e.line, f["fn"] + "|srcbound",
                               "bytes outside the filled part of the buffer may be delivered", q)
                else:
                    # a direct read is only correct when nothing is left in the buffer
                    pv = info["head"].get(("F", this, "pos_"), pos)
                    cv = info["head"].get(("F", this, "count_"), cnt)
                    ck.require(e.facts.entails_ge0(sub(pv, cv)), R, f, e.line, f["fn"] + "|direct",
                               "a direct read skips bytes that are still buffered", q)
    # Close/others that reset the buffer keep the invariant
    f = ck.fn(C + "::Close", 0)
    eng, st, o, bs, pos, cnt, inner, wp, total = prepare()
    for p in ck.run(f, eng, this=this, st=st):
        m = inv(p, inner)
        ck.require(not m, R, f, None, f["fn"] + "|inv", str(m), p)


# ------------------------------------------------------------------ R4
def h_swap(eng, e, st, fr):
    return [(s, op("swap", vs[0])) for s, vs in eng.evs(e["a"], st, fr)]


def data_stream(ck):
    C = "paimon::DataInputStream"
    R = "R4-data"
    H = dict(models.IN_STREAM)
    H["paimon::EndianSwapValue"] = h_swap
    this = ("D", ("v", "this"))
    rec = ck.record(C)
    names = [f["n"] for f in rec["fields"]]
    for n in ("input_stream_", "byte_order_"):
        if n not in names:
            raise AnalysisBroken("DataInputStream member %s is gone" % n)
    bo_field = [f for f in rec["fields"] if f["n"] == "byte_order_"][0]
    ck.require((bo_field.get("init") or {}).get("cv") == "1" or (bo_field.get("init") or {}).get("v") == "1", R, rec["file"], bo_field["l"],
               C + "|default order", "the default byte order is not big endian")

    def prepare():
        eng = ck.engine(handlers=H, split_wraps=True)
        st = eng.new_state()
        inner = eng.deref(eng.read(st, ("F", this, "input_stream_"), "paimon::InputStream *"))
        wp = models.stream_pos(eng, st, inner)
        total = models.stream_len(eng, st, inner)
        st.facts.assume(mk_ge0(sub(LEN_MAX, wp)), True)
        bo = eng.read(st, ("F", this, "byte_order_"), "paimon::ByteOrder")
        return eng, st, inner, wp, total, bo

    # Seek
    eng, st, inner, wp, total, bo = prepare()
    f = ck.fn(C + "::Seek", 1)
    off = params(f)[0]
    for p in ck.run(f, eng, this=this, st=st):
        if p.ok is True:
            ck.require(teq(p, models.stream_pos(eng, p.st, inner), off), R, f, None, f["fn"] + "|abs", "Seek does not move to the given absolute offset", p)
        else:
            ck.require(failed_inner(p) and p.ok is False, R, f, None, f["fn"] + "|err", "Seek fails although the wrapped stream does not", p)

    sizes = {"bool": 1, "char": 1, "signed char": 1, "short": 2, "unsigned short": 2, "int": 4, "long": 8, "float": 4, "double": 8,
             "unsigned int": 4, "unsigned long": 8, "unsigned char": 1}
    insts = [f for f in ck.fn(C + "::ReadValue", 0, many=True) if f.get("fta")]
    if len(insts) < 7:
        raise AnalysisBroken("DataInputStream::ReadValue has %d instantiations" % len(insts))
    for f in insts:
        T = f["fta"]
        need = sizes.get(T)
        if need is None:
            raise AnalysisBroken("ReadValue<%s>" % T)
        eng, st, inner, wp, total, bo = prepare()
        paths = ck.run(f, eng, this=this, st=st)
        key = "%s<%s>" % (f["fn"], T)

        def avail(p):
            rs = [e for e in p.events("sread")]
            if p.ok is False:
                short = any(e.facts is not None for e in rs) and rs and p.st.facts.truth(mk_eq0(sub(rs[0].res, c(need)))) is not True
                return None if failed_inner(p) or short else "a read of an available value is rejected"
            if len(rs) != 1 or not teq(p, rs[0].args[1], c(need)):
                return "the value is not read with one %d-byte read" % need
            if not teq(p, rs[0].res, c(need)):
                return "a short read is accepted"
            raw = op("sbytes", inner, wp, rs[0].args[1])
            big = p.st.facts.truth(mk_eq0(sub(bo, c(1))))
            v = p.okval()
            if contains(v, op("swap", raw)):
                if big is not True:
                    return "bytes are swapped although the order is little endian"
            elif contains(v, raw):
                if big is not False and need > 1:
                    return "bytes are not swapped although the order is big endian"
            else:
                return "the result %s is not the value read" % show(v)

        def notavail(p):
            if p.ok is not False:
                return "a value past the end is returned"
            if p.events("sread"):
                return "bytes past the end are requested"
        fk = dict(f, fn=key)
        ck.cases(R, fk, paths, [
            ("big available", [ge(sub(total, wp), c(need)), mk_eq0(sub(bo, c(1)))], avail),
            ("little available", [ge(sub(total, wp), c(need)), mk_eq0(sub(bo, c(2)))], avail),
            ("not available", [not_(ge(sub(total, wp), c(need)))], notavail)])

    # raw reads
    for name in ("ReadBytes", "Read"):
        eng, st, inner, wp, total, bo = prepare()
        f = ck.fn(C + "::" + name, 1 if name == "ReadBytes" else 2)
        ps = params(f)
        if name == "ReadBytes":
            bl = ("D", ps[0])
            size = eng.read(st, ("F", bl, "size_"), "unsigned long")
            data = eng.read(st, ("F", bl, "data_"), "char *")
            st.facts.assume(ge(c(2 ** 31 - 1), size), True)
        else:
            data, size = ps
        paths = ck.run(f, eng, this=this, st=st)

        def avail2(p):
            rs = p.events("sread")
            if p.ok is False:
                short = rs and p.st.facts.truth(mk_eq0(sub(rs[0].res, size))) is not True
                return None if failed_inner(p) or short else "a read of available bytes is rejected"
            if len(rs) != 1 or not teq(p, rs[0].args[1], size) or not teq(p, rs[0].args[0], data):
                return "not exactly the requested bytes are read into the caller's buffer"
            if not teq(p, rs[0].res, size):
                return "a short read is accepted"

        def not2(p):
            if p.ok is not False:
                return "bytes past the end are returned"
            if p.events("sread"):
                return "bytes past the end are requested"
        ck.cases(R, f, paths, [("available", [ge(sub(total, wp), size)], avail2),
                               ("not available", [not_(ge(sub(total, wp), size))], not2)])

    # ReadString: uint16 length, then that many bytes
    eng, st, inner, wp, total, bo = prepare()
    f = ck.fn(C + "::ReadString", 0)
    from absint import size_of
    nok = 0
    for p in ck.run(f, eng, this=this, st=st):
        rs = p.events("sread")
        for i, e in enumerate(rs):
            pos = e.extra
            ck.require(e.facts.entails_ge0(sub(sub(total, pos), e.args[1])), R, f, e.line, f["fn"] + "|bound", "bytes past the end may be requested", p)
        if p.ok is True:
            nok += 1
            good = len(rs) == 2 and teq(p, rs[0].args[1], c(2))
            ck.require(good, R, f, None, f["fn"] + "|prefix", "a string is not read as a two-byte length followed by its bytes", p)
            if not good:
                continue
            raw = op("sbytes", inner, wp, rs[0].args[1])
            ck.require(contains(rs[1].args[1], raw) and teq(p, rs[1].res, rs[1].args[1]), R, f, None, f["fn"] + "|len",
                       "the number of bytes read is not the length prefix", p)
            v = p.okval()
            ck.require(rs[1].args[0] == op("data", v) and teq(p, size_of(eng, p.st, v), rs[1].args[1]), R, f, None, f["fn"] + "|val",
                       "the returned string is not the one the bytes were read into", p)
    if not nok:
        raise AnalysisBroken("ReadString never succeeds")
