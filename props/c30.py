"""Local file system: whole-file operations, atomic store, renaming, removing, listing, on a modelled disk with every system call failing in turn.

Clients call the interface; the operating system is a small tree of files (lib/osmodel.py).  Each case is followed without faults and then once
for every system call with exactly this call failing."""
import conc
import funcs
import mem as M
import osmodel as O
import seq
from bytespec import World, hexs
from dom import ONE, ZERO, c
from rules import AnalysisBroken, show
from specs import cells_of, loc_of, value, vec

PREFIXES = ["fs/local/local_file", "common/fs/file_system", "common/utils/path_util", "common/utils/string_utils"]
CLIENTS = ["c30"]
MIN_OBLIGATIONS = 150
RULES = {
    "R1-store": "an atomic store leaves the whole content or nothing under the name, whatever call fails and wherever it stops; stored content is on disk before it gets the name",
    "R2-whole": "a written file has exactly the given content, a read file is returned exactly; an existing file is only replaced when asked for",
    "R3-tree": "renaming, removing and making directories change exactly what was asked for",
    "R4-list": "listing and status tell exactly what is on disk",
    "R5-report": "an operation with a failing system call is an error",
    "R6-handle": "streams and directories are used while open and are closed at the end",
    "R7-scheme": "a path means the same file with and without file scheme, other schemes are refused without touching the disk",
    "R9-threads": "of two threads storing or renaming to the same name one succeeds and its content stays",
    "R8-memory": "no byte outside a buffer is accessed",
}
L = "paimon::LocalFileSystem::"
F = "paimon::FileSystem::"
UNIQ = "0123456789abcdef0123456789abcdef0123"
EXISTED = "already there"


def uuid(eng, e, st, fr):
    out = []
    for s, vs in eng.ev_args(None, e, e.get("a") or [], st, fr):
        n = s.ghost.get("uuids", 0)
        s.ghost["uuids"] = n + 1
        eng.write(s, loc_of(eng, vs[0]), ("s", UNIQ[:-1] + "3456"[n]), e, fr)
        out.append((s, ONE))
    return out


class W(World):
    mem_rule = "R8-memory"

    def text(self, st, s):
        return self.string(st, [c(b) for b in s.encode()])

    def plain(self, p, v):
        if v is not None and v[0] == "ref":
            v = self.eng.read(p.st, v[1], "std::string")
        cs = seq.chars(v) if v is not None else None
        if cs is None:
            raise AnalysisBroken("text %s not understood" % show(v)[:120])
        return "".join(chr(M.cint(self.eng, p.st, x, "char")) for x in cs)

    def go(self, name, f, build, fs, expect, quiet=(), faulty=None, **kw):
        """follow the client without fault and with each call failing (calls in `quiet` may fail unnoticed)"""
        n = 0
        good = None
        for p in self.once(name, build, fs, **kw):
            o = O.of(p.st)
            n = max(n, o.n)
            if p.ok is None:
                raise AnalysisBroken("the outcome of %s is not known" % name)
            good = p.ok if good in (None, p.ok) else None
            self.common(f, name, p, None)
            expect(p, o)
        for k in range(1, n + 1):
            for p in self.once(name, build, fs, fault=(k, O.EIO), **kw):
                o = O.of(p.st)
                if o.failed is None:
                    continue
                if p.ok is None:
                    raise AnalysisBroken("the outcome of %s with failing %s is not known" % (name, o.failed))
                self.common(f, name, p, o.failed)
                if o.failed not in quiet:
                    self.ck.require(not p.ok, "R5-report", f, None, "%s|%s" % (name, o.failed), "a failing %s is reported as success" % o.failed, p)
                if faulty is not None:
                    faulty(p, o, good)

    def once(self, name, build, fs, **kw):
        st = self.state()
        O.start(st, fs, **kw)
        args = build(st)
        for p in self.run(name, args, st):
            self.safe(self.ck.fn(self.ns + name), p, name, "R8-memory")
            yield p

    def common(self, f, name, p, failed):
        o = O.of(p.st)
        t = " after %s failed" % failed if failed else ""
        self.ck.require(not o.bad, "R6-handle", f, None, name, o.bad[0] if o.bad else "", p)
        self.ck.require(not any(d[2] for d in o.dirs.values()), "R6-handle", f, None, name + "|dir", "a directory stays open" + t, p)
        if name in ("Store", "Write", "Read"):
            self.ck.require(not any(h["open"] for h in o.files.values()), "R6-handle", f, None, name + "|file", "a file stays open" + t, p)


def parents(path):
    out = []
    u = O.parent(path)
    while u:
        out.append(u)
        u = O.parent(u)
    return out


def below(tree, path):
    return [k for k in tree if k == path or k.startswith(path + "/")]


def with_dirs(tree, path):
    d = dict(tree)
    for u in parents(path):
        d.setdefault(u, ("dir",))
    return d


def forms(path):
    """the same local file"""
    out = [path]
    if path.startswith("/"):
        out += ["file:" + path, "file://" + path, "FILE:" + path]
    return out


def bare(u):
    for x in ("file://", "file:", "FILE:"):
        if u.startswith(x):
            return u[len(x):]
    return u


def check(ck):
    hs = dict(O.HANDLERS)
    hs["paimon::IOHook::Try"] = lambda eng, e, st, fr: [(s, ("ok",)) for s, _ in eng.evs(e.get("a") or [], st, fr)]
    for k in ("paimon::Singleton::GetInstance", "paimon::IOHook::GetInstance", "paimon::Singleton<paimon::IOHook>::GetInstance", "paimon::Singleton<IOHook>::GetInstance"):
        hs[k] = lambda eng, e, st, fr: [(st, ("addr", ("T", "hook", "paimon::IOHook")))]
    hs["paimon::UUID::Generate"] = uuid
    w = W(ck, "paimon::client30::", handlers=hs)
    funcs.enable(w.eng)
    w.eng.dtors = True
    b = w.bytes("f", 4)
    tree = {"/d": ("dir",), "/d/f": ("reg", tuple(b)), "/d/e": ("reg", ()), "/d/f.old": ("reg", (b[0],)), "/d/s": ("dir",), "/d/s/x": ("reg", (b[1], b[2])), "/d/s/t": ("dir",),
            "/d/s/t/y": ("reg", (b[3],)), "/d/ss": ("dir",), "/d/ss/x": ("reg", (b[0],)), "/d/n": ("dir",), "/r": ("reg", (b[1],)), "q": ("reg", (b[2],))}
    new = w.bytes("w", 3)
    store(ck, w, tree, new)
    threads(ck, w, tree, new)
    whole(ck, w, tree, new)
    rename(ck, w, tree)
    remove(ck, w, tree)
    mkdirs(ck, w, tree)
    listing(ck, w, tree)
    scheme(ck, w, tree, new)
    streams(ck, w, tree)


def store(ck, w, tree, new):
    f = ck.fn(F + "AtomicStore")
    for u in ("/d/m", "/d/k/l/m", "/d/f", "/d/e", "/d/s", "file:/d/m", "file:///d/f", "/d/f/m", "/m", "m", "q", "/d/n/m"):
        path = bare(u)
        old = tree.get(path)
        blocked = any(tree.get(x, ("dir",))[0] != "dir" for x in parents(path))
        for data in (new, new[:1], []):
            done = ("reg", tuple(data))
            if len(data) == 1 and path != "/d/m":
                continue

            def seen(p, o, t):
                ck.require(all(x in (old, done) for x in o.seen), "R1-store", f, None, "Store|seen",
                           "%s can be seen with incomplete content%s" % (u, t), p)
                for k, v in tree.items():
                    ck.require(o.fs.get(k) == v, "R1-store", f, None, "Store|else", "storing %s changes %s%s" % (u, k, t), p)

            def durable(p, o):
                # everything stored under the name was forced to disk and closed before the name existed
                at = [i for i, x in enumerate(o.log) if x[0] in ("rename", "link") and O.trim(x[2]) == path]
                hs = [i for i, h in o.files.items() if h["path"] == path]
                for h in hs:
                    ws = [i for i, x in enumerate(o.log) if x[:2] == ("fwrite", h)]
                    sy = [i for i, x in enumerate(o.log) if x[:2] == ("fsync", h)]
                    ck.require(not data or (at and ws and sy and ws[-1] < sy[-1] < at[0]), "R1-store", f, None, "Store|synced", "the content of %s is not forced to disk before it gets its name" % u, p)
                if not hs and data:
                    raise AnalysisBroken("the file stored at %s is not known" % u)

            def expect(p, o):
                want = old is None and not blocked
                ck.require(p.ok == want, "R1-store", f, None, "Store|ok", "storing %s %s is %s" % (u, "(%s)" % EXISTED if old else "", "an error" if want else "no error"), p)
                seen(p, o, "")
                after = dict(with_dirs(tree, path), **{path: done}) if want else tree
                ck.require(o.fs == after, "R1-store", f, None, "Store|tree", "storing %s leaves %s" % (u, sorted(set(o.fs) ^ set(after)) or "other content"), p)
                if want and p.ok:
                    durable(p, o)

            def faulty(p, o, good):
                t = " when %s fails" % o.failed
                seen(p, o, t)
                if p.ok:
                    ck.require(o.fs.get(path) == done, "R1-store", f, None, "Store|lost", "storing %s succeeds without storing%s" % (u, t), p)
                elif good:
                    left = [k for k, v in o.fs.items() if k not in tree and v[0] == "reg" and k != path]
                    ck.require(not left, "R1-store", f, None, "Store|left", "storing %s leaves %s behind%s" % (u, ", ".join(left).replace(UNIQ, "..."), t), p)
                    ck.require(o.fs.get(path) == old, "R1-store", f, None, "Store|undone", "storing %s fails but the file is there%s" % (u, t), p)
            w.go("Store", f, lambda st: [w.text(st, u), w.string(st, data)], tree, expect, faulty=faulty, watch=path)


def threads(ck, w, tree, new):
    """the whole operation of another thread before each system call"""
    f = ck.fn(F + "AtomicStore")
    other = w.bytes("o", 2)
    done, theirs = ("reg", tuple(new)), ("reg", tuple(other))
    for u in ("/d/m", "file:/d/k/m"):
        path = bare(u)
        after = with_dirs(tree, path)
        schedules(ck, w, "Store", f, lambda st: [w.text(st, u), w.string(st, new)], lambda st: [w.text(st, path), w.string(st, other)], tree, path,
                  "storing " + u, dict(after, **{path: done}), dict(after, **{path: theirs}))
    g = ck.fn(L + "Rename")
    for a, b, t in (("/d/f", "/d/e", "/d/m"), ("/d/s", "/d/ss", "/d/k/m")):
        def moved(s):
            d = with_dirs(tree, t)
            for k in below(tree, s):
                d[t + k[len(s):]] = d.pop(k)
            return d
        schedules(ck, w, "Rename", g, lambda st: [w.text(st, a), w.text(st, t)], lambda st: [w.text(st, b), w.text(st, t)], tree, t,
                  "renaming %s and %s to %s" % (a, b, t), moved(a), moved(b))


def schedules(ck, w, name, f, args, others, tree, path, what, mine, theirs):
    at = conc.AtCalls(w.eng, ck.fn(w.ns + name), others)
    k = ran = 0
    try:
        while True:
            k += 1
            more = False
            for p in w.once(name, args, tree, inter=(k, at), watch=path):
                o = O.of(p.st)
                if p.ok is None:
                    raise AnalysisBroken("the outcome of %s is not known" % name)
                if o.blocked:
                    more = True
                    ran += 1
                    continue
                if o.other is None:
                    continue
                more = True
                ran += 1
                if o.other[0] not in ("ok", "err"):
                    raise AnalysisBroken("the outcome of the other thread is not known")
                won = o.other[0] == "ok"
                ck.require(p.ok != won, "R9-threads", f, None, name + "|one", "%s by two threads succeeds for %s" % (what, "both" if won else "none"), p)
                ck.require(o.fs == (theirs if won else mine), "R9-threads", f, None, name + "|kept", "%s by two threads: %s" % (what, "the file of the first is replaced" if won else "other files"), p)
                ck.require(len(o.seen) <= 2, "R9-threads", f, None, name + "|stable", "%s by two threads: the content changes after it was stored" % what, p)
            if not more:
                break
    finally:
        w.eng.on_lock = None
    if ran < 2:
        raise AnalysisBroken("no schedule of %s runs" % name)


def whole(ck, w, tree, new):
    f, g = ck.fn(F + "WriteFile"), ck.fn(F + "ReadFile")
    for u in ("/d/m", "/d/k/l/m", "/d/f", "file:/d/f", "/d/e", "/d/s", "/d/f/m", "m", "q", "/m"):
        path = bare(u)
        old = tree.get(path)
        blocked = any(tree.get(x, ("dir",))[0] != "dir" for x in parents(path))
        for over in (0, 1):
            for data in (new, []):
                want = not blocked and (old is None or over and old[0] == "reg")

                def expect(p, o):
                    ck.require(p.ok == bool(want), "R2-whole", f, None, "Write|ok", "writing %s%s is %s" % (u, " with overwriting" if over else "", "an error" if want else "no error"), p)
                    after = dict(with_dirs(tree, path), **{path: ("reg", tuple(data))}) if want else tree
                    ck.require(o.fs == after, "R2-whole", f, None, "Write|tree",
                               "writing %s%s leaves %s" % (u, " with overwriting" if over else "", sorted(set(o.fs) ^ set(after)) or "content [%s]" % hexs(list((o.fs.get(path) or ("reg", ()))[-1]))), p)
                w.go("Write", f, lambda st: [w.text(st, u), w.string(st, data), c(over)], tree, expect)
    for u in ("/d/f", "file:///d/f", "/d/e", "/d/s/x", "q", "/r", "/d/s", "/d/missing", "/d/f/m", "/x/y"):
        x = tree.get(bare(u))
        out = ("T", w.name("content"))

        def args(st):
            st.store[out] = seq.mkstr([c(b) for b in b"earlier"])
            return [w.text(st, u), ("addr", out)]

        def expect(p, o):
            want = x is not None and x[0] == "reg"
            ck.require(o.fs == tree, "R2-whole", g, None, "Read|tree", "reading %s changes the disk" % u, p)
            if not ck.require(p.ok == want, "R2-whole", g, None, "Read|ok", "reading %s is %s" % (u, "an error" if want else "no error"), p) or not want:
                return
            got = w.out_bytes(p, ("ref", out))
            ck.require(w.same_all(p, got, list(x[1])), "R2-whole", g, None, "Read", "reading %s gives [%s] instead of [%s]" % (u, hexs(got), hexs(list(x[1]))), p)
        w.go("Read", g, args, tree, expect, quiet=("fclose",))


def rename(ck, w, tree):
    f = ck.fn(L + "Rename")
    for a, b in (("/d/f", "/d/m"), ("/d/f", "/d/k/l/m"), ("/d/s", "/d/m"), ("/d/s", "/d/k/l"), ("/d/f", "/d/e"), ("/d/f", "/d/n"), ("/d/s", "/d/n"), ("/d/s", "/d/f"), ("/d/missing", "/d/m"),
                 ("/x/y", "/k/m"), ("/d/f", "/d/m/"), ("/d/s", "/d/m/"), ("/d/f", "/d/f"), ("/d/f", "/d/e/m"), ("file:/d/f", "/d/m"), ("/d/f", "file:/d/m"), ("file:///d/s", "file:///d/k/m"), ("q", "m"),
                 ("q", "k/m"), ("/r", "/m"), ("/d/ss", "/d/sss"), ("hdfs:/d/f", "/d/m"), ("/d/f", "oss://b/m")):
        s, t = bare(a), bare(b)
        x = tree.get(s)
        bad = x is None or O.trim(t) in tree or (t.endswith("/") and x[0] == "reg") or ":" in s + t or any(tree.get(k, ("dir",))[0] != "dir" for k in parents(t))
        t = O.trim(t)

        def moved():
            d = {}
            for k, v in with_dirs(tree, t).items():
                if k == s or k.startswith(s + "/"):
                    d[t + k[len(s):]] = v
                else:
                    d[k] = v
            return d
        after = tree if bad else moved()

        def expect(p, o):
            ck.require(p.ok != bad, "R3-tree", f, None, "Rename|ok", "renaming %s to %s is %s" % (a, b, "no error" if bad else "an error"), p)
            ck.require(o.fs == after, "R3-tree", f, None, "Rename|tree", "renaming %s to %s changes %s" % (a, b, sorted(set(o.fs) ^ set(after)) or "contents"), p)

        def faulty(p, o, good):
            if not p.ok:
                lost = [k for k, v in tree.items() if o.fs.get(k) != v]
                ck.require(not lost, "R3-tree", f, None, "Rename|failed", "a failed renaming of %s to %s changes %s" % (a, b, lost), p)
        w.go("Rename", f, lambda st: [w.text(st, a), w.text(st, b)], tree, expect, faulty=faulty)


def remove(ck, w, tree):
    f = [x for x in ck.prog.fns(L + "Delete")][0]
    for u in ("/d/f", "/d/e", "/d/n", "/d/s", "/d/s/t", "/d/ss", "/d", "file:/d/f", "FILE:/d/s", "/r", "q", "/d/missing", "/d/f/m", "hdfs:/d/f"):
        path = bare(u)
        x = tree.get(path)
        for rec in (0, 1):
            inner = [k for k in below(tree, path) if k != path]
            ok = x is not None and (rec or not inner)
            after = {k: v for k, v in tree.items() if k not in below(tree, path)} if ok else tree

            def expect(p, o):
                if x is None and ":" not in u:
                    pass        # nothing to remove: an error or not
                else:
                    ck.require(p.ok == bool(ok), "R3-tree", f, None, "Delete|ok", "removing %s %s is %s" % (u, "with its content" if rec else "alone", "an error" if ok else "no error"), p)
                ck.require(o.fs == after, "R3-tree", f, None, "Delete|tree", "removing %s %s leaves %s" % (u, "with its content" if rec else "alone", sorted(o.fs)), p)

            def faulty(p, o, good):
                lost = [k for k in tree if k not in o.fs and not (ok and k in below(tree, path))]
                ck.require(not lost, "R3-tree", f, None, "Delete|failed", "removing %s removes %s when %s fails" % (u, lost, o.failed), p)
            if u == "/d" and rec and ck.tier != "thorough":
                for p in w.once("Delete", lambda st: [w.text(st, u), c(rec)], tree):
                    expect(p, O.of(p.st))
                continue
            w.go("Delete", f, lambda st: [w.text(st, u), c(rec)], tree, expect, faulty=faulty)


def mkdirs(ck, w, tree):
    f, g = ck.fn(L + "Mkdirs"), ck.fn(L + "Exists")
    for u in ("/d/k", "/d/k/l/m", "/d/n/k", "/d", "/d/s/t", "/d/f", "/d/f/k", "/d/s/x/k/l", "/k", "k", "k/l", "file:/d/k/l", "file:///k/l/m", "/d/k/", "oss://b/k", ""):
        path = O.trim(bare(u)) if u else ""
        bad = ":" in path or not path or any(tree.get(x, ("dir",))[0] != "dir" for x in [path] + parents(path))
        after = tree if bad else dict(with_dirs(tree, path), **{path: ("dir",)})

        def expect(p, o):
            ck.require(p.ok != bad, "R3-tree", f, None, "Mkdirs|ok", "making the directory '%s' is %s" % (u, "no error" if bad else "an error"), p)
            ck.require(o.fs == after, "R3-tree", f, None, "Mkdirs|tree", "making the directory '%s' changes %s" % (u, sorted(set(o.fs) ^ set(after)) or "contents"), p)
        w.go("Mkdirs", f, lambda st: [w.text(st, u)], tree, expect)
    # somebody else makes the directory or one above it meanwhile
    for u, made in (("/d/k", ["/d/k"]), ("/d/k/l", ["/d/k"]), ("/d/k/l", ["/d/k", "/d/k/l"]), ("/k", ["/k"])):
        for n in range(1, 12):
            for p in w.once("Mkdirs", lambda st: [w.text(st, u)], tree, meanwhile=(n, {k: ("dir",) for k in made})):
                o = O.of(p.st)
                if o.n >= n:
                    ck.require(p.ok, "R3-tree", f, None, "Mkdirs|race", "making the directory %s is an error when %s appears before the %s" % (u, made[-1], o.log[n - 1][0]), p)
                    ck.require(o.fs.get(u) == ("dir",), "R3-tree", f, None, "Mkdirs|made", "the directory %s is not made when %s appears meanwhile" % (u, made[-1]), p)
    for u in ("/d", "/d/f", "/d/missing", "/x/y", "file:/d/f", "FILE:/d/missing", "q", "oss://d/f", "/"):
        def expect(p, o):
            ck.require(o.fs == tree, "R4-list", g, None, "Exists|tree", "asking for %s changes the disk" % u, p)
            if u.startswith("oss"):
                ck.require(not p.ok, "R7-scheme", g, None, "Exists|scheme", "%s is taken for a local file" % u, p)
                return
            if ck.require(p.ok, "R4-list", g, None, "Exists|ok", "asking for %s is an error" % u, p):
                want = bare(u) in tree or u == "/"
                v = value(p, p.okval())
                ck.require(v == c(int(want)), "R4-list", g, None, "Exists", "%s %s" % (u, "does not exist" if want else "exists"), p)
        w.go("Exists", g, lambda st: [w.text(st, u)], tree, expect)


def listing(ck, w, tree):
    f, g, h = ck.fn(L + "ListDir"), ck.fn(L + "ListFileStatus"), ck.fn(L + "GetFileStatus")
    sizes = {"/d/f": (c(1 << 33), c(1700000001)), "/d/s/x": (c(2), c(5))}

    def size(k):
        return sizes[k][0] if k in sizes else c(len(tree[k][1]))

    def cells(p, l):
        return [w.eng.read(p.st, x[1], None) if x[0] == "ref" else x for x in cells_of(p, ("ref", l))]
    for name, fn in (("ListBasic", f), ("ListFull", g)):
        for u in ("/d", "/d/s", "/d/n", "file:/d/s", "/d/s/", "/d/f", "/d/missing", "/x/y", "/d/f/m", "hdfs:/d"):
            path = O.trim(bare(u))
            x = tree.get(path)
            outs = [("T", w.name("out")) for _ in range(3 if name == "ListFull" else 2)]

            def args(st):
                for l, t in zip(outs, ("std::string", "bool", "unsigned long")):
                    vec(w.eng, st, l, [], t)
                return [w.text(st, u)] + [("addr", l) for l in outs]
            if path == "/d/f/m" or u.startswith("hdfs") or (path == "/d/f" and name == "ListBasic"):
                want = None
            elif x is None:
                want = []
            elif x[0] == "reg":
                want = [path]
            else:
                want = [k for k in tree if O.parent(k) == path]

            def expect(p, o):
                ck.require(o.fs == tree, "R4-list", fn, None, name + "|tree", "listing changes the disk", p)
                if not ck.require(p.ok == (want is not None), "R4-list", fn, None, name + "|ok", "listing %s is %s" % (u, "no error" if want is None else "an error"), p) or want is None:
                    return
                got = [w.plain(p, v) for v in cells(p, outs[0])]
                ck.require(sorted(got) == sorted(want), "R4-list", fn, None, name, "listing %s gives %s instead of %s" % (u, sorted(got), sorted(want)), p)
                for k, v in zip(got, cells(p, outs[1])):
                    if k in tree:
                        ck.require(v == c(int(tree[k][0] == "dir")), "R4-list", fn, None, name + "|kind", "listing %s calls %s a %s" % (u, k, "file" if tree[k][0] == "dir" else "directory"), p)
                if name == "ListFull":
                    for k, v in zip(got, cells(p, outs[2])):
                        if k in tree and tree[k][0] == "reg":
                            ck.require(w.same_value(p, v, size(k), "unsigned long"), "R4-list", fn, None, name + "|size", "listing %s gives %s the length %s" % (u, k, show(v)), p)
            w.go(name, fn, args, tree, expect, sizes=sizes)
            # an entry that vanishes during listing is left out, nothing else is
            if path != "/d/s":
                continue
            for n in range(1, 30):
                for p in w.once(name, args, tree, sizes=sizes, fault=(n, O.ENOENT)):
                    o = O.of(p.st)
                    if o.failed == "access" and p.ok and o.log[n - 1][1] in want:
                        got = sorted(w.plain(p, v) for v in cells(p, outs[0]))
                        ck.require(got == sorted(k for k in want if k != o.log[n - 1][1]), "R4-list", fn, None, name + "|vanish",
                                   "listing %s while %s vanishes gives %s" % (u, o.log[n - 1][1], got), p)
                    elif o.failed == "access" and o.log[n - 1][1] in want:
                        ck.require(False, "R4-list", fn, None, name + "|vanish", "listing %s while %s vanishes is an error" % (u, o.log[n - 1][1]), p)
    for u in ("/d", "/d/f", "/d/s/x", "file:/d/f", "file:///d/s", "q", "/d/missing", "/d/f/m", "oss://b/k"):
        path = bare(u)
        x = tree.get(path)
        outs = [("T", w.name("out")) for _ in range(4)]

        def expect(p, o):
            ck.require(o.fs == tree, "R4-list", h, None, "Stat|tree", "asking for the status changes the disk", p)
            if not ck.require(p.ok == (x is not None), "R4-list", h, None, "Stat|ok", "the status of %s is %s" % (u, "an error" if x else "no error"), p) or x is None:
                return
            got = [p.st.store.get(l) for l in outs]
            ck.require(w.plain(p, got[0]) == path, "R4-list", h, None, "Stat|path", "the status of %s has the path %s" % (u, w.plain(p, got[0])), p)
            ck.require(got[1] == c(int(x[0] == "dir")), "R4-list", h, None, "Stat|kind", "the status of %s has the wrong kind" % u, p)
            if x[0] == "reg":
                ck.require(w.same_value(p, got[2], size(path), "unsigned long"), "R4-list", h, None, "Stat|size", "the status of %s has the length %s" % (u, show(got[2])), p)
            ck.require(got[3] == c(1000 * (sizes[path][1][1] if path in sizes else 1700000000)), "R4-list", h, None, "Stat|time", "the status of %s has the time %s" % (u, show(got[3])), p)
        w.go("Stat", h, lambda st: [w.text(st, u)] + [("addr", l) for l in outs], tree, expect, sizes=sizes)


def scheme(ck, w, tree, new):
    f = ck.fn(F + "IsObjectStore")
    for u, want in (("/d/f", False), ("file:/d/f", False), ("File:/d/f", False), ("hdfs://h/p", False), ("dfs:/p", False), ("DFS:/p", False), ("oss://b/k", True), ("s3:/k", True), ("files:/d", True),
                    ("d/f", False), ("hdfs2://b/k", True), ("", None)):
        def expect(p, o):
            if want is None:
                ck.require(not p.ok, "R7-scheme", f, None, "Remote|bad", "the empty path is no error", p)
            elif ck.require(p.ok, "R7-scheme", f, None, "Remote|ok", "%s is refused" % u, p):
                ck.require(value(p, p.okval()) == c(int(want)), "R7-scheme", f, None, "Remote", "%s is%s taken for an object store" % (u, " not" if want else ""), p)
        w.go("Remote", f, lambda st: [w.text(st, u)], tree, expect)
    for name, fn, args in (("Store", F + "AtomicStore", lambda st, u: [w.text(st, u), w.string(st, new)]), ("Write", F + "WriteFile", lambda st, u: [w.text(st, u), w.string(st, new), ONE]),
                           ("Mkdirs", L + "Mkdirs", lambda st, u: [w.text(st, u)]), ("Delete", L + "Mkdirs", lambda st, u: [w.text(st, u), ONE])):
        for u in ("hdfs:/d/f", "oss://d/f", "files:/d/f", "s3:/d"):
            def expect(p, o):
                ck.require(not p.ok and not o.n and o.fs == tree, "R7-scheme", ck.prog.fns(fn)[0], None, name + "|scheme", "%s of %s touches the local disk or is no error" % (name, u), p)
            w.go(name, ck.prog.fns(fn)[0], lambda st: args(st, u), tree, expect)


def streams(ck, w, tree):
    fo = ck.fn(L + "Open")
    data = list(tree["/d/f"][1])

    def buf(st, n):
        return ("ptr", M.new_block(w.eng, st, max(n, 1), "buf"), 0)
    fc = ck.fn(L + "Create")
    for u in ("/d/f", "file:/d/e", "/d/missing", "/d/f/m", "/secret/a", "hdfs:/d/f"):
        ok = bare(u) in tree

        def expect(p, o):
            ck.require(p.ok == ok and o.fs == tree, "R2-whole", fo, None, "Opens", "opening %s is %s or changes the disk" % (u, "an error" if ok else "no error"), p)
        w.go("Opens", fo, lambda st: [w.text(st, u)], tree, expect, denied=["/secret"])
        for over in (0, 1):
            new = bare(u) not in tree and bare(u) == "/d/missing"
            good = new or ok and over

            def expect(p, o):
                after = dict(tree, **{bare(u): ("reg", ())}) if good else tree
                ck.require(p.ok == bool(good) and o.fs == after, "R2-whole", fc, None, "Creates", "creating %s is %s or leaves another disk" % (u, "an error" if good else "no error"), p)
            w.go("Creates", fc, lambda st: [w.text(st, u), c(over)], tree, expect, denied=["/secret"])
    cell = {}

    def got(p, n):
        b = cell["b"]
        return w.sure(p, M.get(w.eng, p.st, b[1], b[2], n)) if n else []
    for off, org, at in ((0, 0, 0), (2, 0, 2), (1, 1, 1), (-3, 2, 1), (0, 2, 4), (4, 0, 4), (-1, 0, None), (-5, 2, None), (-1, 1, None)):
        for n in (0, 1, 2, 4):
            outs = [("T", w.name("out")) for _ in range(2)]
            ok = at is not None and at + n <= 4

            def args(st):
                cell["b"] = buf(st, n)
                return [w.text(st, "/d/f"), c(off), c(org), cell["b"], c(n)] + [("addr", l) for l in outs]

            def expect(p, o):
                if not ck.require(p.ok == ok, "R2-whole", fo, None, "Tail|ok", "reading %d bytes after seeking to %d from %d is %s" % (n, off, org, "an error" if ok else "no error"), p) or not ok:
                    return
                ck.require(w.same_all(p, got(p, n), data[at:at + n]), "R2-whole", fo, None, "Tail", "reading %d bytes after seeking to %d from %d gives [%s]" % (n, off, org, hexs(got(p, n))), p)
                ps = [p.st.store.get(l) for l in outs]
                ck.require(ps[0] == c(at + n) and ps[1] == c(4), "R2-whole", fo, None, "Tail|pos", "position %s, length %s after reading" % tuple(map(show, ps)), p)
            w.go("Tail", fo, args, tree, expect)
    for name in ("At", "Async"):
        for n in (0, 1, 3, 4, 5):
            for off in (0, 1, 3, 4, 6):
                ok = off + n <= 4 or n == 0

                def args(st):
                    cell["b"] = buf(st, n)
                    return [w.text(st, "/d/f"), cell["b"], c(n), c(off)]

                def expect(p, o):
                    if ck.require(p.ok == ok, "R2-whole", fo, None, name + "|ok", "reading %d bytes at %d is %s" % (n, off, "an error" if ok else "no error"), p) and ok:
                        ck.require(w.same_all(p, got(p, n), data[off:off + n]), "R2-whole", fo, None, name, "reading %d bytes at %d gives [%s]" % (n, off, hexs(got(p, n))), p)
                w.go(name, fo, args, tree, expect)
