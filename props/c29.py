"""A path is served by the file system of its scheme; one instance exists per scheme and authority.

Clients (inst/c29.cpp, public interface only) build a resolving file system with every subset of configured schemes and
ask it about one, two or three paths.  File systems are made by a stand-in of the factory that may fail; the record of
makings and forwarded calls is compared with a model.  The other thread's whole operation is put at each lock."""
import itertools

import conc
import seq
from absint import _obj_locs
from dom import ONE, ZERO, c, op
from models import _err
from rules import AnalysisBroken, show, teq
from specs import constref, strarg, value

PREFIXES = ["common/fs/resolving", "common/utils/path_util", "common/utils/string_utils"]
CLIENTS = ["c29"]
MIN_OBLIGATIONS = 1500
RULES = {
    "R1-choice": "the file system is made with the identifier configured for the path's scheme (file also for no scheme), else the default one, for that path and with all options",
    "R2-once": "a scheme and authority use one instance for good; others get their own; a failed making is not remembered",
    "R3-forward": "every operation passes its arguments unchanged to the chosen file system once and gives back its answer",
    "R4-error": "an invalid path or a failed making is an error and no operation is carried out",
    "R5-threads": "with another thread at any lock all operations on a scheme and authority use one instance",
}
K = "paimon::client29::"
PATHS = ("/a/b", "a/b", "file:///a/c", "file:/d", "oss://one/a", "oss://one/b/c", "oss://two/a", "hdfs://one/a", "s3://one/x", "//one/x", "oss:/x")
DEST = {"Exists": "okv", "Open": "okv", "Create": "okv", "GetFileStatus": "okv", "Mkdirs": "ok", "Rename": "ok", "Delete": "ok", "ListDir": "ok", "ListFileStatus": "ok"}


def key(path):
    """scheme and authority"""
    scheme = auth = ""
    i = path.find(":")
    if i >= 0 and "/" not in path[:i]:
        scheme, path = path[:i], path[i + 1:]
    if path.startswith("//") and len(path) > 2:
        auth = path[2:].split("/")[0]
    return scheme, auth


class W:
    def __init__(self, ck):
        self.ck = ck
        self.eng = ck.engine(seq=True, max_depth=40, unroll=24)
        self.eng.join = False
        self.sure = False
        self.th = conc.Threads(ck, self.eng, K)
        h = self.eng.handlers
        h["paimon::FileSystemFactory::Get"] = self.get
        h[K + "Mark"] = self.mark
        for n in DEST:
            h["paimon::FileSystem::" + n] = lambda eng, e, st, fr, n=n: self.call(eng, e, st, fr, n)

    def text(self, s, v, t):
        v = self.eng.argval(s, v, t)
        if v is not None and v[0] == "ref":
            v = self.eng.read(s, v[1], t)
        if "bad:" in show(v):
            self.ck.bad("R1-choice", self.ck.fn("paimon::ResolvingFileSystem::Exists"), None, "missing", "an entry that does not exist is read (%s)" % show(v))
            raise AnalysisBroken("an entry that does not exist is read")
        if v is None or v[0] != "s":
            raise AnalysisBroken("the text %s is not known" % show(v))
        return v[1]

    def get(self, eng, e, st, fr):
        out = []
        a = e.get("a") or []
        for s, vs in eng.ev_args(None, e, a, st, fr):
            ident, path = self.text(s, vs[0], a[0].get("t")), self.text(s, vs[1], a[1].get("t"))
            m = vs[2][1] if vs[2][0] == "ref" else None
            cs = seq.cells(eng, s, m) if m is not None else None
            if cs is None:
                raise AnalysisBroken("the options %s are not known" % show(vs[2]))
            opts = []
            for x in cs:
                x = seq.load(eng, s, x)
                opts.append((self.text(s, x[2], None), self.text(s, x[3], None)))
            n = s.ghost.get("made", 0) + 1
            if not self.sure:
                s2 = s.copy()
                s2.ghost["calls"] = s2.ghost.get("calls", ()) + (("fail", ident, path, tuple(opts)),)
                out.append((s2, _err(eng, s2, e, "Get")))
            s.ghost["made"] = n
            s.ghost["calls"] = s.ghost.get("calls", ()) + (("make", ident, path, tuple(opts), n),)
            out.append((s, ("okv", ("addr", ("T", "obj:real%d" % n, "paimon::FileSystem")))))
        return out

    def mark(self, eng, e, st, fr):
        st.ghost["calls"] = st.ghost.get("calls", ()) + (("mark",),)
        return [(st, op("void"))]

    def call(self, eng, e, st, fr, n):
        out = []
        a = e.get("a") or []
        for s, ol in _obj_locs(eng, e, st, fr):
            if not (ol[0] == "T" and str(ol[1]).startswith("obj:real")):
                return NotImplemented
            for s1, vs in eng.ev_args(None, e, a, s, fr):
                args = []
                for v, x in zip(vs, a):
                    v = eng.argval(s1, v, x.get("t"))
                    if v[0] == "ref" and s1.store.get(v[1], ("",))[0] == "s":
                        v = s1.store[v[1]]
                    args.append(v)
                s1.ghost["calls"] = s1.ghost.get("calls", ()) + (("call", n, int(ol[1][8:]), tuple(args)),)
                if not self.sure:
                    s2 = s1.copy()
                    out.append((s2, _err(eng, s2, e, n)))
                out.append((s1, ("ok",) if DEST[n] == "ok" else ("okv", ("v", "answer") if n == "Exists" else ("addr", ("T", "obj:answer", "paimon::X")))))
        return out

    def run(self, name, flags, texts, extra=()):
        f = self.ck.fn(K + name)
        st = self.eng.new_state()
        args = [c(x) for x in flags] + [strarg(self.eng, st, t, "p%d" % i) for i, t in enumerate(texts)] + list(extra)
        self.eng.steps = 0
        return f, self.ck.run(f, self.eng, args=args, st=st)


def ident(flags, scheme):
    file, oss, hdfs, other = flags
    if scheme in ("file", "") and file:
        return "id-file"
    if scheme == "oss" and oss:
        return "id-oss"
    if scheme == "hdfs" and hdfs:
        return "id-hdfs"
    return "id-other" if other else "id-default"


OPTS = (("k", "v"), ("l", "w"))


def judge(ck, w, f, p, flags, texts, text):
    """compare the record with the model"""
    parts = [[]]
    for x in p.st.ghost.get("calls", ()):
        if x[0] == "mark":
            parts.append([])
        else:
            parts[-1].append(x)
    have = {}
    fs = ck.fn("paimon::ResolvingFileSystem::Exists")
    for i, t in enumerate(texts):
        part = parts[i] if i < len(parts) else []
        k = key(t)
        made = [x for x in part if x[0] in ("make", "fail")]
        calls = [x for x in part if x[0] == "call"]
        where = "%s|%d" % (text, i)
        said = "path '%s' after %s" % (t, ", ".join("'%s'" % x for x in texts[:i])) if i else "path '%s'" % t
        if k in have:
            if not ck.require(not made, "R2-once", fs, None, where, "%s: another file system is made for %s" % (said, k), p):
                return
            want = have[k]
        else:
            if not ck.require(len(made) == 1, "R2-once" if i else "R1-choice", fs, None, where, "%s: %d file systems are made" % (said, len(made)), p):
                return
            m = made[0]
            ck.require(m[1] == ident(flags, k[0]), "R1-choice", fs, None, where + "|id", "%s with schemes configured %s: identifier '%s' is used instead of '%s'" %
                       (said, flags, m[1], ident(flags, k[0])), p)
            ck.require(m[2] == t, "R1-choice", fs, None, where + "|path", "%s: the file system is made for '%s'" % (said, m[2]), p)
            ck.require(tuple(sorted(m[3])) == OPTS, "R1-choice", fs, None, where + "|opts", "%s: the file system is made with options %s" % (said, m[3]), p)
            if m[0] == "fail":
                if not ck.require(not calls, "R4-error", fs, None, where, "%s: the operation is carried out although no file system could be made" % said, p):
                    return
                if i == len(texts) - 1:
                    ck.require(p.ok is False, "R4-error", fs, None, where + "|ok", "%s: a failed making is not an error" % said, p)
                continue
            want = have[k] = m[4]
        if not ck.require(len(calls) == 1, "R3-forward", fs, None, where, "%s: the operation is carried out %d times" % (said, len(calls)), p):
            return
        ck.require(calls[0][2] == want, "R2-once" if i else "R3-forward", fs, None, where + "|who", "%s: a file system made for another path is used" % said, p)
        ck.require(calls[0][3] == (("s", t),), "R3-forward", fs, None, where + "|arg", "%s: the operation is asked about %s" % (said, show(calls[0][3][0])), p)


def check(ck):
    w = W(ck)
    for flags in itertools.product((0, 1), repeat=4):
        for t in PATHS:
            f, ps = w.run("One", flags, [t])
            for p in ps:
                judge(ck, w, f, p, flags, [t], "One|%s|%s" % (flags, t))
    for flags in ((1, 1, 1, 0), (1, 0, 1, 1), (0, 1, 0, 0)):
        for a, b in itertools.product(PATHS, repeat=2):
            f, ps = w.run("Two", flags, [a, b])
            for p in ps:
                judge(ck, w, f, p, flags, [a, b], "Two|%s|%s|%s" % (flags, a, b))
    for t3 in itertools.product(("oss://one/a", "oss://two/b", "/c"), repeat=3):
        f, ps = w.run("Three", (1, 1, 1, 0), t3)
        for p in ps:
            judge(ck, w, f, p, (1, 1, 1, 0), list(t3), "Three|%s" % (t3,))
    forward(ck, w)
    threads(ck, w)


def forward(ck, w):
    out = ("addr", ("T", "obj:out"))
    cases = [("Open", ["oss://one/a"], ()), ("Mkdirs", ["oss://one/a"], ()), ("GetFileStatus", ["oss://one/a"], ()), ("Exists", ["oss://one/a"], ()),
             ("Rename", ["oss://one/a", "oss://one/b"], ()), ("ListDir", ["oss://one/a"], (out,)), ("ListFileStatus", ["oss://one/a"], (out,)),
             ("Create", ["oss://one/a"], (("v", "flag"),)), ("Delete", ["oss://one/a"], (("v", "flag"),)), ("DeleteDefault", ["oss://one/a"], ())]
    for name, texts, extra in cases:
        base = name.replace("Default", "")
        fs = ck.fn("paimon::ResolvingFileSystem::" + base)
        extra = tuple(w.eng.typed(x, "bool") if x[0] == "v" else x for x in extra)
        for bad in (0, 1):
            if bad:
                f, ps = w.run(name, (), [""] + texts[1:], extra)
                for p in ps:
                    ck.require(p.ok is False and not p.st.ghost.get("calls"), "R4-error", fs, None, name + "|invalid", "%s of an empty path is %s" % (base, "carried out" if p.st.ghost.get("calls") else "no error"), p)
                continue
            f, ps = w.run(name, (), texts, extra)
            good = 0
            for p in ps:
                rec = p.st.ghost.get("calls", ())
                calls = [x for x in rec if x[0] == "call"]
                if p.ok is None:
                    raise AnalysisBroken("the outcome of %s is not known" % name)
                if any(x[0] == "fail" for x in rec):
                    ck.require(not calls and not p.ok, "R4-error", fs, None, name + "|make", "%s goes on without a file system" % base, p)
                    continue
                want = tuple(("s", t) for t in texts) + (extra or ((ONE,) if name == "DeleteDefault" else ()))
                ok = len(calls) == 1 and calls[0][1] == base and len(calls[0][3]) == len(want) and all(x == y or teq(p, x, y) for x, y in zip(calls[0][3], want))
                ck.require(ok, "R3-forward", fs, None, name + "|args", "%s is forwarded as %s" % (base, [(x[1], [show(y) for y in x[3]]) for x in calls]), p)
                said = any(op("isok", t)[0] for t in ()) if False else None
                if p.ok:
                    good += 1
                    if DEST[base] == "okv":
                        v = p.okval()
                        g = value(p, v)
                        ck.require("answer" in show(g), "R3-forward", fs, None, name + "|answer", "%s answers %s instead of the file system's answer" % (base, show(g)), p)
            ck.require(good == 1, "R3-forward", fs, None, name + "|ok", "%s succeeds on %d paths instead of exactly when the file system succeeds" % (base, good))


def threads(ck, w):
    w.sure = True
    th = w.th
    fs = ck.fn("paimon::ResolvingFileSystem::Exists")
    for a, b in itertools.product(("oss://one/a", "oss://one/b", "oss://two/a", "/c"), repeat=2):
        for last in (a, b):
            for k in range(1, 10):
                th.at, th.fired, th.other = k, 0, ck.fn(K + "Other")
                l = ("D", ("v", "&const:other"))
                old = th.interrupt

                def interrupt(eng, s, l=l, b=b, old=old):
                    s.store[l] = ("s", b)
                    old(eng, s)
                th.interrupt = interrupt
                th.args = [("ref", l)]
                try:
                    f, ps = w.run("Shared", (1, 1, 1, 0), [a, last])
                finally:
                    th.interrupt = old
                if not th.fired:
                    break
                for p in ps:
                    owner, rec = {}, p.st.ghost.get("calls", ())
                    n = sum(x[0] == "call" for x in rec)
                    ck.require(n == 3, "R5-threads", fs, None, "n|%s|%s|%d" % (a, b, k), "%d of three operations are carried out" % n, p)
                    for x in rec:
                        if x[0] == "call":
                            q = key(x[3][0][1])
                            ck.require(owner.setdefault(q, x[2]) == x[2], "R5-threads", fs, None, "%s|%s|%s|%d" % (a, b, last, k),
                                       "'%s' while another thread asks about '%s' at lock %d: two file systems serve %s" % (a, b, k, q), p)
                    ck.require(len(set(owner.values())) == len(owner), "R5-threads", fs, None, "mix|%s|%s|%s|%d" % (a, b, last, k), "one file system serves different authorities", p)
            th.at = None
    conc.lockset(ck, "R5-threads", "paimon::ResolvingFileSystem")
    for k, t in sorted(th.dead.items(), key=str):
        ck.bad("R5-threads", fs, None, "again|%s" % show(k[0]), t)
    ck.ok("R5-threads")
