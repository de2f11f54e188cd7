"""Paths and texts are taken apart and put together without loss.

Path functions run on every arrangement of up to N characters, each a slash, a colon or an unknown other character; the
oracle is a grammar written here (scheme, authority, inner path).  Text functions run on every arrangement of separator,
blank and unknown characters."""
import itertools

import seq
from dom import ONE, ZERO, c, mk_eq0, op, sub
from rules import AnalysisBroken, show, teq
from specs import cells_of, constref, loc_of, value

PREFIXES = ["common/utils/path_util", "common/utils/string_utils"]
MIN_OBLIGATIONS = 3000
RULES = {
    "R1-parse": "a path is its scheme (before a first colon that no slash precedes), its authority (after //) and an inner path without doubled or trailing slashes; an empty path is an error",
    "R2-normal": "the normal form writes the three parts back and is its own normal form",
    "R3-join": "joining puts exactly one separator between two parts and keeps a part joined with nothing",
    "R4-parent": "joining the parent and the name of a path names the same place; the name is its last component",
    "R5-temp": "a temporary path lies in the directory of its target, begins with a dot and differs with the unique part",
    "R6-text": "replacing, splitting, trimming and changing case touch exactly the asked characters",
}
PU = "paimon::PathUtil::"
SU = "paimon::StringUtils::"
SL, CO, BL = 47, 58, 32


class W:
    def __init__(self, ck):
        self.ck = ck
        self.eng = ck.engine(seq=True, max_depth=40, unroll=24)
        self.eng.join = False
        self.other = {}

    def text(self, skel, avoid=(SL, CO)):
        """characters of an arrangement: an int is that character, a name is an unknown other one"""
        return [x if isinstance(x, tuple) else c(x) for x in skel]

    def state(self, skels, avoid=(SL, CO, BL)):
        st = self.eng.new_state()
        for sk in skels:
            for x in sk:
                if isinstance(x, tuple):
                    for a in avoid:
                        st.facts.assume(mk_eq0(sub(x, c(a))), False)
        return st

    def run(self, f, skels, extra=(), avoid=(SL, CO, BL)):
        st = self.state(skels, avoid)
        args = [constref(self.eng, st, seq.mkstr(self.text(s)), "s%d" % i) for i, s in enumerate(skels)] + list(extra)
        self.eng.steps = 0
        return self.ck.run(f, self.eng, args=args, st=st)

    def chars(self, p, v):
        v = value(p, v)
        cs = seq.chars(v) if v is not None else None
        if cs is None:
            raise AnalysisBroken("the text %s is not known" % show(v))
        return cs

    def same(self, p, got, want):
        return len(got) == len(want) and all(x == y or teq(p, x, y) for x, y in zip(got, self.text(want)))


def says(p):
    """a decided yes or no"""
    v = value(p)
    t = v[1] != 0 if v[0] == "c" else p.st.facts.truth(v)
    if t is None:
        raise AnalysisBroken("the answer %s is not decided" % show(v))
    return bool(t)


def lit(cs):
    return "".join(chr(x) if isinstance(x, int) else chr(x[1]) if x[0] == "c" else x[1] if x[0] == "v" else "?" for x in cs)


def skels(n, alphabet, tag="x"):
    for k in range(n + 1):
        for pat in itertools.product(alphabet + (None,), repeat=k):
            yield tuple(("v", tag + str(i)) if x is None else x for i, x in enumerate(pat))


# ---------------------------------------------------------------- the grammar
def parse(s):
    scheme = auth = ()
    col = s.index(CO) if CO in s else None
    if col is not None and SL not in s[:col]:
        scheme, s = s[:col], s[col + 1:]
    if len(s) > 2 and s[0] == SL and s[1] == SL:
        end = next((i for i in range(2, len(s)) if s[i] == SL), len(s))
        auth, s = s[2:end], s[end:]
    return scheme, auth, collapse(s)


def collapse(s):
    out = []
    for x in s:
        if not (x == SL and out and out[-1] == SL):
            out.append(x)
    if len(out) > 1 and out[-1] == SL:
        out.pop()
    return tuple(out)


def unparse(q):
    scheme, auth, path = q
    return (scheme + (CO,) if scheme else ()) + ((SL, SL) + auth if auth else ()) + path


def joined(a, b):
    if not a or not b:
        return a or b
    return (a[:-1] if a[-1] == SL else a) + (SL,) + (b[1:] if b[0] == SL else b)


def last(s):
    while s and s[-1] == SL:
        s = s[:-1]
    i = len(s)
    while i and s[i - 1] != SL:
        i -= 1
    return s[i:]


def back(w, p, cs):
    """arrangement of a decided result"""
    out = []
    for x in cs:
        if x[0] == "c":
            out.append(x[1])
        elif x[0] == "v":
            out.append(x)
        else:
            raise AnalysisBroken("character %s is not known" % show(x))
    return tuple(out)


def check(ck):
    w = W(ck)
    n = 7 if ck.tier == "thorough" else 6
    paths(ck, w, n)
    joins(ck, w, 3)
    texts(ck, w)


def paths(ck, w, n):
    fp, fn = ck.fn(PU + "ToPath"), ck.fn(PU + "NormalizePath")
    fd, fm = ck.fn(PU + "GetParentDirPath"), ck.fn(PU + "GetName")
    ft = ck.fn(PU + "CreateTempPath")
    uniq = tuple(("v", "u%d" % i) for i in range(36))

    def uuid(eng, e, st, fr):
        out = []
        for s, vs in eng.ev_args(None, e, e.get("a") or [], st, fr):
            s2 = s.copy()
            eng.write(s, loc_of(eng, vs[0]), seq.mkstr(list(uniq)), e, fr)
            eng.write(s2, loc_of(eng, vs[0]), ("s", ""), e, fr)
            out += [(s, ONE), (s2, ZERO)]
        return out
    w.eng.handlers["paimon::UUID::Generate"] = uuid
    for s in skels(n, (SL, CO)):
        t = lit(s)
        for p in w.run(fp, [s]):
            if p.ok is None:
                raise AnalysisBroken("the outcome for '%s' is not known" % t)
            if not ck.require(p.ok == bool(s), "R1-parse", fp, None, "ok|" + t, "the path '%s' is %s" % (t, "accepted" if p.ok else "refused"), p) or not p.ok:
                continue
            l = loc_of(w.eng, p.okval())
            got = [w.chars(p, w.eng.read(p.st, ("F", l, k), None)) for k in ("scheme", "authority", "path")]
            ck.require(all(w.same(p, g, x) for g, x in zip(got, parse(s))), "R1-parse", fp, None, "parts|" + t,
                       "'%s' is taken apart as '%s' instead of '%s'" % (t, "', '".join(map(lit, got)), "', '".join(map(lit, parse(s)))), p)
        for p in w.run(fn, [s]):
            if not ck.require(p.ok == bool(s), "R2-normal", fn, None, "ok|" + t, "the path '%s' is %s" % (t, "accepted" if p.ok else "refused"), p) or not p.ok:
                continue
            g = w.chars(p, p.okval())
            ck.require(w.same(p, g, unparse(parse(s))), "R2-normal", fn, None, "text|" + t, "'%s' becomes '%s' instead of '%s'" % (t, lit(g), lit(unparse(parse(s)))), p)
        q = parse(s)
        if not last(q[2]) or len(s) > n - 1 or s[0] == CO:
            continue        # names nothing below a root
        for p in w.run(fm, [s]):
            g = w.chars(p, p.val)
            ok = ck.require(w.same(p, g, last(s)), "R4-parent", fm, None, "name|" + t, "the name of '%s' is '%s' instead of '%s'" % (t, lit(g), lit(last(s))), p)
        for p in w.run(fd, [s]):
            d = back(w, p, w.chars(p, p.val))
            ck.require(parse(joined(d, last(s))) == q, "R4-parent", fd, None, "parent|" + t, "the parent of '%s' is '%s', which is not where it lies" % (t, lit(d)), p)
        if len(s) > n - 2:
            continue
        seen = set()
        for p in w.run(ft, [s]):
            if p.ok is None:
                raise AnalysisBroken("the temporary path of '%s' is not known" % t)
            seen.add(p.ok)
            if not p.ok:
                continue
            g = back(w, p, w.chars(p, p.okval()))
            mine = last(g)
            ck.require(g[:1] and parse(g[:len(g) - len(mine)] + last(s)) == q, "R5-temp", ft, None, "dir|" + t, "the temporary path '%s' does not lie beside '%s'" % (lit(g), t), p)
            ck.require(mine[:1] == (46,) and holds(mine, last(s)) and holds(mine, uniq), "R5-temp", ft, None, "name|" + t, "the temporary name '%s' of '%s' is not hidden, named after its target and unique" % (lit(mine), t), p)
        ck.require(seen == {True, False}, "R5-temp", ft, None, "fail|" + t, "a missing unique part is %s" % ("always an error" if seen == {False} else "not an error"))


def holds(s, part):
    return any(s[i:i + len(part)] == part for i in range(len(s) - len(part) + 1))


def joins(ck, w, n):
    f = ck.fn(PU + "JoinPath")
    for a in skels(n, (SL,), "a"):
        for b in skels(n, (SL,), "b"):
            for p in w.run(f, [a, b]):
                g = w.chars(p, p.val)
                ck.require(w.same(p, g, joined(a, b)), "R3-join", f, None, "%s|%s" % (lit(a), lit(b)), "'%s' joined with '%s' is '%s' instead of '%s'" % (lit(a), lit(b), lit(g), lit(joined(a, b))), p)
    f = ck.fn(PU + "TrimLastDelim")
    for a in skels(4, (SL,), "a"):
        st = w.state([a])
        l = ("T", "obj:text")
        st.store[l] = seq.mkstr(w.text(a))
        want = a[:-1] if len(a) > 1 and a[-1] == SL else a
        for p in ck.run(f, w.eng, args=[("addr", l)], st=st):
            g = w.chars(p, ("ref", l))
            ck.require(w.same(p, g, want), "R3-join", f, None, "trim|" + lit(a), "'%s' without its last separator is '%s'" % (lit(a), lit(g)), p)


# ---------------------------------------------------------------- texts
def replaced(s, pat, rep, most):
    out, i, k = [], 0, 0
    while i < len(s):
        if pat and s[i:i + len(pat)] == pat and (most < 0 or k < most):
            out += rep
            i += len(pat)
            k += 1
        else:
            out.append(s[i])
            i += 1
    return tuple(out)


def split(s, sep, ignore):
    if not sep:
        return [s]
    out, old, i = [], 0, 0
    while i <= len(s) - len(sep):
        if s[i:i + len(sep)] == sep:
            out.append(s[old:i])
            i += len(sep)
            old = i
        else:
            i += 1
    out.append(s[old:])
    return [x for x in out if x or not ignore]


def texts(ck, w):
    f4 = ck.fn(SU + "Replace", 4)
    f3 = ck.fn(SU + "Replace", 3)
    S2 = [(SL,), (SL, SL), (SL, CO)]
    for s in skels(4, (SL, CO)):
        for pat in [()] + S2:
            for rep in ((), (SL,), (CO, SL, SL)):
                for most in (-1, 0, 1, 2):
                    if most == 2 and len(pat) == 0:
                        continue
                    want = replaced(s, pat, rep, most)
                    t = "%s|%s|%s|%d" % (lit(s), lit(pat), lit(rep), most)
                    for p in w.run(f4, [s, pat, rep], [c(most)]):
                        g = w.chars(p, p.val)
                        ck.require(w.same(p, g, want), "R6-text", f4, None, "replace|" + t, "'%s' with '%s' replaced by '%s' at most %d times is '%s'" % (lit(s), lit(pat), lit(rep), most, lit(g)), p)
                if len(s) < 4:
                    for p in w.run(f3, [s, pat, rep]):
                        g = w.chars(p, p.val)
                        ck.require(w.same(p, g, replaced(s, pat, rep, -1)), "R6-text", f3, None, "replace3|" + t, "'%s' with every '%s' replaced by '%s' is '%s'" % (lit(s), lit(pat), lit(rep), lit(g)), p)
    f = ck.fn(SU + "ReplaceLast")
    for s in skels(4, (SL, CO)):
        for pat in S2:
            for rep in ((), (SL,), (CO, SL, SL)):
                i = next((i for i in range(len(s) - len(pat), -1, -1) if s[i:i + len(pat)] == pat), None)
                want = s if i is None else s[:i] + rep + s[i + len(pat):]
                for p in w.run(f, [s, pat, rep]):
                    g = w.chars(p, p.val)
                    ck.require(w.same(p, g, want), "R6-text", f, None, "last|%s|%s|%s" % (lit(s), lit(pat), lit(rep)), "'%s' with the last '%s' replaced by '%s' is '%s'" % (lit(s), lit(pat), lit(rep), lit(g)), p)
    f = ck.fn(SU + "Split", pick=lambda g: "bool" in g["params"][2]["t"])
    for s in skels(5, (SL, CO)):
        for sep in [()] + S2:
            for ignore in (0, 1):
                want = split(s, sep, ignore)
                if not sep and not s:
                    continue
                for p in w.run(f, [s, sep], [c(ignore)]):
                    got = parts(w, p, p.val)
                    ck.require(len(got) == len(want) and all(w.same(p, g, x) for g, x in zip(got, want)), "R6-text", f, None, "split|%s|%s|%d" % (lit(s), lit(sep), ignore),
                               "'%s' split at '%s'%s is %s" % (lit(s), lit(sep), " without empty parts" if ignore else "", [lit(x) for x in got]), p)
    f = ck.fn(SU + "Split", pick=lambda g: "bool" not in g["params"][2]["t"])
    for s in skels(4, (SL, CO)):
        want = [split(x, (CO,), True) for x in split(s, (SL,), True)]
        for p in w.run(f, [s, (SL,), (CO,)]):
            cs = cells_of(p, p.val)
            if cs is None:
                raise AnalysisBroken("the parts of '%s' are not known" % lit(s))
            got = [parts(w, p, x) for x in cs]
            ck.require([len(x) for x in got] == [len(x) for x in want] and all(w.same(p, g, x) for a, b in zip(got, want) for g, x in zip(a, b)), "R6-text", f, None, "split2|" + lit(s),
                       "'%s' split at slash and colon is %s" % (lit(s), [[lit(x) for x in y] for y in got]), p)
    fs, fe, fb, fr = ck.fn(SU + "StartsWith"), ck.fn(SU + "EndsWith"), ck.fn(SU + "IsNullOrWhitespaceOnly"), ck.fn(SU + "Trim")
    for s in skels(3, (SL, CO)):
        for pat in skels(2, (SL, CO)):
            if any(isinstance(x, tuple) for x in pat):
                continue
            for at in range(len(s) + 1):
                for p in w.run(fs, [s, pat], [c(at)]):
                    ck.require(says(p) == (s[at:at + len(pat)] == pat), "R6-text", fs, None, "starts|%s|%s|%d" % (lit(s), lit(pat), at), "whether '%s' holds '%s' at %d is %s" % (lit(s), lit(pat), at, show(p.val)), p)
            for p in w.run(fe, [s, pat]):
                ck.require(says(p) == (len(pat) <= len(s) and s[len(s) - len(pat):] == pat), "R6-text", fe, None, "ends|%s|%s" % (lit(s), lit(pat)), "whether '%s' ends with '%s' is %s" % (lit(s), lit(pat), show(p.val)), p)
    for s in skels(5, (BL,)):
        st = w.state([s])
        l = ("T", "obj:text")
        st.store[l] = seq.mkstr(w.text(s))
        a, b = 0, len(s)
        while a < b and s[a] == BL:
            a += 1
        while a < b and s[b - 1] == BL:
            b -= 1
        for p in ck.run(fr, w.eng, args=[("addr", l)], st=st):
            g = w.chars(p, ("ref", l))
            ck.require(w.same(p, g, s[a:b]), "R6-text", fr, None, "trim|" + lit(s), "'%s' trimmed is '%s'" % (lit(s), lit(g)), p)
    for ch in range(256):
        sc = ch if ch < 128 else ch - 256
        for fnm, conv in (("ToLowerCase", lambda x: x + 32 if 65 <= x <= 90 else x), ("ToUpperCase", lambda x: x - 32 if 97 <= x <= 122 else x)):
            f = ck.fn(SU + fnm)
            for p in w.run(f, [(65, sc, 97)]):
                g = w.chars(p, p.val)
                if any(x[0] != "c" for x in g):
                    raise AnalysisBroken("character %d becomes %s" % (ch, [show(x) for x in g]))
                ck.require([x[1] % 256 for x in g] == [conv(x) % 256 for x in (65, sc, 97)], "R6-text", f, None, "%s|%d" % (fnm, ch), "character %d becomes %s" % (ch, [show(x) for x in g]), p)
        blank = ch in (9, 10, 11, 12, 13, 32)
        for s in ((sc,), (BL, sc), (sc, BL, BL)):
            for p in w.run(fb, [s]):
                ck.require(says(p) == blank, "R6-text", fb, None, "blank|%d|%d" % (ch, len(s)), "whether a text with character %d and blanks is blank is %s" % (ch, show(p.val)), p)
    for p in w.run(fb, [()]):
        ck.require(says(p), "R6-text", fb, None, "blank|", "an empty text is not blank", p)


def parts(w, p, v):
    cs = cells_of(p, v)
    if cs is None:
        raise AnalysisBroken("the parts %s are not known" % show(v))
    return [w.chars(p, seq.load(p.eng, p.st, x)) for x in cs]
