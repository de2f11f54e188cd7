"""Interface models used by the property modules: what a call through an
abstract interface of the repository may do.  They describe the interface
documentation (include/paimon/fs/file_system.h), not an implementation."""
from absint import Event, _obj_locs, size_of
from dom import ONE, ZERO, add, c, ge, mk_ge0, op, scale, sub

SET, CUR, END = c(0), c(1), c(2)


def spos(ol):
    return ("F", ol, "$pos")


def slen(ol):
    return ("F", ol, "$len")


def _rd(eng, s, loc, t):
    return eng.read(s, loc, t)


def stream_pos(eng, s, ol):
    v = _rd(eng, s, spos(ol), "long")
    s.facts.assume(ge(v, ZERO), True)
    s.facts.assume(ge(stream_len(eng, s, ol), v), True)
    return v


def stream_len(eng, s, ol):
    # the length of a stream does not change while it is read
    v = ("op", "streamlen", ol)
    eng.ttype[v] = "unsigned long"
    s.facts.assume(mk_ge0(sub(c(2 ** 62), v)), True)
    return v


def _err(eng, s, e, name):
    r = eng.fresh(name + "!err", e.get("t"))
    s.facts.assume(op("isok", r), False)
    return r


def h_getpos(eng, e, st, fr):
    out = []
    for s, ol in _obj_locs(eng, e, st, fr):
        if ol == fr.this:
            return NotImplemented
        s2 = s.copy()
        out.append((s, ("okv", stream_pos(eng, s, ol))))
        out.append((s2, _err(eng, s2, e, "GetPos")))
    return out


def h_length(eng, e, st, fr):
    out = []
    for s, ol in _obj_locs(eng, e, st, fr):
        if ol == fr.this:
            return NotImplemented
        s2 = s.copy()
        out.append((s, ("okv", stream_len(eng, s, ol))))
        out.append((s2, _err(eng, s2, e, "Length")))
    return out


def h_seek(eng, e, st, fr):
    out = []
    for s0, ol in _obj_locs(eng, e, st, fr):
        if ol == fr.this:
            return NotImplemented
        for s, (off, org) in eng.evs(e["a"], s0, fr):
            p0 = stream_pos(eng, s, ol)
            ln = stream_len(eng, s, ol)
            ev = Event("sseek", "Seek", ol, (off, org), None, e.get("l", 0), eng.file, e, s.facts.copy(), p0)
            s.events = s.events + (ev,)
            s2 = s.copy()
            r = _err(eng, s2, e, "Seek")
            out.append((s2, r))
            for k, base in ((SET, ZERO), (CUR, p0), (END, ln)):
                s3 = s.copy()
                cond = eng.compare(s3, "==", org, k, "int")
                if not s3.facts.assume(cond, True):
                    continue
                s3.store[spos(ol)] = add(base, off)
                # a successful seek lands inside the stream
                if not (s3.facts.assume(ge(add(base, off), ZERO), True) and
                        s3.facts.assume(ge(ln, add(base, off)), True)):
                    continue
                out.append((s3, ("ok",)))
    return out


def h_read(eng, e, st, fr):
    out = []
    for s0, ol in _obj_locs(eng, e, st, fr):
        if ol == fr.this and fr.this is not None:
            return NotImplemented
        for s, vs in eng.evs(e["a"], s0, fr):
            pread = len(vs) == 3
            p0 = stream_pos(eng, s, ol) if not pread else vs[2]
            n = eng.fresh("nread", "int")
            ev = Event("sread", "pread" if pread else "Read", ol, tuple(vs), n, e.get("l", 0), eng.file, e, s.facts.copy(), p0)
            s.events = s.events + (ev,)
            d = vs[0]
            base, off = (d, None)
            if d[0] == "addr":
                eng.havoc(s, d[1])
                if d[1][0] in ("V", "T") and d[1] not in ():
                    s.store[d[1]] = op("sbytes", ol, p0, vs[1])
            else:
                b, off = eng.split_ptr(d)
                eng.havoc(s, ("D", b if b is not None else d))
            s2 = s.copy()
            # a failed read may have consumed bytes
            if not pread:
                np = eng.fresh("pos?", "long")
                s2.facts.assume(ge(np, ZERO), True)
                s2.store[spos(ol)] = np
            out.append((s2, _err(eng, s2, e, "Read")))
            s.facts.assume(ge(n, ZERO), True)
            s.facts.assume(ge(vs[1], n), True)
            if not pread:
                s.store[spos(ol)] = add(p0, n)
            s.facts.assume(ge(stream_len(eng, s, ol), add(p0, n)), True)
            out.append((s, ("okv", n)))
    return out


def h_write(eng, e, st, fr):
    out = []
    for s0, ol in _obj_locs(eng, e, st, fr):
        if ol == fr.this and fr.this is not None:
            return NotImplemented
        for s, vs in eng.evs(e["a"], s0, fr):
            n = eng.fresh("nwritten", "int")
            src = vs[0]
            content = None
            if src[0] == "addr":
                content = s.store.get(src[1])
                if content is None:
                    content = eng.read(s, src[1], None)
            ev = Event("swrite", "Write", ol, tuple(vs), n, e.get("l", 0), eng.file, e, s.facts.copy(), content)
            s.events = s.events + (ev,)
            s2 = s.copy()
            out.append((s2, _err(eng, s2, e, "Write")))
            s.facts.assume(ge(n, ZERO), True)
            s.facts.assume(ge(vs[1], n), True)
            out.append((s, ("okv", n)))
    return out


IN_STREAM = {
    "paimon::InputStream::GetPos": h_getpos,
    "paimon::InputStream::Length": h_length,
    "paimon::InputStream::Seek": h_seek,
    "paimon::InputStream::Read": h_read,
}
OUT_STREAM = {"paimon::OutputStream::Write": h_write}

