"""Partition paths are escaped, ordered and complete.

The escape function is run by conditional constant propagation on every byte
value in every kind of neighbourhood; path generation on every combination of
representative keys and values.  The oracle is a frozen list of escaped
characters, written down independently of the table in the code."""
import itertools

import seq
from dom import c, op
from rules import AnalysisBroken, show
from specs import cells_of, constref, vec

PREFIXES = ["core/utils/partition_path"]
MIN_OBLIGATIONS = 1000
RULES = {
    "R1-escape": "exactly the reserved characters become %XX with two uppercase hex digits, everything else is kept, in order",
    "R2-empty": "an empty name is an error",
    "R3-path": "a partition path is key=value for every entry in order, each followed by a slash",
    "R4-prefixes": "the hierarchical paths are the paths of all prefixes of the partition spec, shortest first",
}
N = "paimon::PartitionPathUtils::"
RESERVED = set(range(32)) | {ord(x) for x in "\"#%'*/:=?\\{}[]^"} | {127}


def esc(bs):
    out = []
    for b in bs:
        out += list(b"%%%02X" % b) if b in RESERVED else [b]
    return bytes(out)


def term(bs):
    return seq.mkstr([c(b if b < 128 else b - 256) for b in bs])


def txt(v):
    cs = seq.chars(v)
    if cs is None or any(x[0] != "c" for x in cs):
        return None
    return bytes(x[1] & 255 for x in cs)


def known(x, got, p):
    """the text must be decided before it can be called wrong"""
    if p.ok is None or (p.ok and got is None):
        raise AnalysisBroken("the result for %r is not decided: %s" % (x, show(p.val)[:200]))
    return got


def inner(p, v):
    v = v[1] if v is not None and v[0] == "okv" else v
    if v is not None and v[0] == "ref":
        v = p.eng.read(p.st, v[1], None)
    return v


def base(ck):
    """engine and heap after the first use, with function-local tables in place"""
    if not hasattr(ck, "c15"):
        eng = ck.engine(seq=True, max_depth=24)
        st = eng.new_state()
        f = ck.fn(N + "EscapePathName", 1)
        ps = ck.run(f, eng, args=[constref(eng, st, term(b"="))], st=st)
        if len(ps) != 1:
            raise AnalysisBroken("escaping of a constant is not decided (%d paths)" % len(ps))
        st = ps[0].st
        statics = {k: v for k, v in st.store.items() if eng._root(k)[0] == "G"}
        ck.c15 = (eng, statics, st)
    return ck.c15


def run1(ck, f, val):
    eng, statics, old = base(ck)
    st = eng.new_state()
    st.store.update(statics)
    st.ghost = dict(old.ghost)
    if isinstance(val, bytes):
        a = constref(eng, st, term(val))
    else:
        l = ("T", "obj:spec")
        cs = []
        for k, v in val:
            cell = seq.put(eng, st, op("pair", term(k), term(v)), "std::pair<std::basic_string<char>, std::basic_string<char>>")
            cs.append(cell)
        st.store[l] = op("seq", *cs)
        a = ("ref", l)
    ps = ck.run(f, eng, args=[a], st=st)
    if len(ps) != 1:
        raise AnalysisBroken("%s is not decided for %r (%d paths)" % (f["fn"], val, len(ps)))
    return ps[0]


def check(ck):
    f = ck.fn(N + "EscapePathName", 1)
    p = run1(ck, f, b"")
    ck.require(p.ok is False, "R2-empty", f, f["line"], "empty", "the empty name is accepted", p)
    bad = set()
    names = []
    for b in range(256):
        x = bytes([b])
        names += [x, b"a" + x, x + b"b", b"=" + x, x + b"/", b"\xc3" + x]
    reps = [b"a", b"=", b"%", b"\x01", b"\x80", b" ", b"\x7f"]
    names += [b"".join(t) for n in (3, 4) for t in itertools.product(reps[:4 if n == 4 else 7], repeat=n)]
    names += [b"a" * 9, b"=" * 9, b"ab=cd=ef", b"dt%3D", "é=日本".encode()]
    for x in names:
        p = run1(ck, f, x)
        got = txt(inner(p, p.okval())) if p.ok else None
        known(x, got, p)
        want = esc(x)
        key = "esc:%r" % x if len(x) == 1 else "esc-seq"
        if got == want:
            ck.ok("R1-escape")
        elif key not in bad:
            bad.add(key)
            ck.bad("R1-escape", f, f["line"], key, "the name %r becomes %s instead of %r" % (x, "an error" if got is None else repr(got), want), p)
    gen = ck.fn(N + "GeneratePartitionPath", 1)
    hier = ck.fn(N + "GenerateHierarchicalPartitionPaths", 1)
    ks = [b"k", b"d=t"]
    vs = [b"v", b"a/b", b"%", b"\x80"]
    pairs = list(itertools.product(ks, vs))
    specs = [[]] + [[x] for x in pairs] + [[x, y] for x in pairs for y in pairs] + \
            [[x, y, z] for x in pairs[:2] + pairs[5:6] for y in pairs[:3] for z in pairs[2:5]] + [[(b"k%d" % i, b"v%d" % i) for i in range(5)]]
    empties = [[(b"", b"v")], [(b"k", b"")], [(b"k", b"v"), (b"", b"v")], [(b"k", b"v"), (b"j", b"")], [(b"k", b""), (b"j", b"v")],
               [(b"a", b"b"), (b"k", b"v"), (b"j", b"")]]
    for sp in specs:
        want = b"".join(esc(k) + b"=" + esc(v) + b"/" for k, v in sp)
        p = run1(ck, gen, sp)
        got = txt(inner(p, p.okval())) if p.ok else None
        known(sp, got, p)
        ck.require(got == want, "R3-path", gen, gen["line"], "path%d" % len(sp), "the spec %r gives %r instead of %r" % (sp, got, want), p)
        p = run1(ck, hier, sp)
        got = None
        if p.ok:
            cs = cells_of(p, p.okval())
            got = None if cs is None else [txt(p.eng.read(p.st, x[1], None) if x[0] == "ref" else x) for x in cs]
        known(sp, None if got is None or None in got else got, p)
        wl = [b"".join(esc(k) + b"=" + esc(v) + b"/" for k, v in sp[:i + 1]) for i in range(len(sp))]
        ck.require(got == wl, "R4-prefixes", hier, hier["line"], "paths%d" % len(sp), "the spec %r gives %r instead of %r" % (sp, got, wl), p)
    for sp in empties:
        for g in (gen, hier):
            p = run1(ck, g, sp)
            ck.require(p.ok is False, "R2-empty", g, g["line"], "empty:%r" % (sp,), "the spec %r with an empty part is accepted" % (sp,), p)
