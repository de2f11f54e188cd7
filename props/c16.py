"""Local files: every operation tells what is on disk, errors of the system are reported, handles are used properly.

Clients call the interface; the operating system is a small tree of files (lib/osmodel.py).  Each case is followed without faults and then once
for every system call with exactly this call failing, and once for every consultation of the test hook with the hook refusing."""
import mem as M
import osmodel as O
from bytespec import World, hexs
from dom import ONE, ZERO, c
from rules import AnalysisBroken, show
from specs import cells_of, constref, value

PREFIXES = ["fs/local/local_file.cpp"]
CLIENTS = ["c16"]
MIN_OBLIGATIONS = 150
RULES = {
    "R1-answer": "the answer is the state of the file on disk and only the requested change happens",
    "R2-report": "an operation with a failing system call is an error",
    "R3-handle": "streams and directories are used while open, directories are always closed",
    "R4-data": "exactly the requested bytes are transferred, in order",
    "R5-hook": "the hook is asked before the system, its error is returned and stops the operation",
    "R6-memory": "no byte outside the buffer is accessed",
}
L = "paimon::LocalFile::"
ANY = object()
ERR = object()


def h_hook(eng, e, st, fr):
    out = []
    for s, vs in eng.evs(e.get("a") or [], st, fr):
        o = O.of(s)
        O.put(s, hooks=o.hooks + 1, log=o.log + (("hook",),))
        if o.hookfault == o.hooks + 1:
            O.put(s, stopped=len(O.of(s).log))
            out.append((s, ("err", "IOError")))
        else:
            out.append((s, ("ok",)))
    return out


class W(World):
    mem_rule = "R6-memory"

    def text(self, st, s):
        return self.string(st, [c(b) for b in s.encode()])

    def go(self, name, f, build, fs, expect, **kw):
        """follow the client without fault, with each call failing, with each hook failing"""
        n = h = 0
        for p in self.one_run(name, build, fs, **kw):
            o = O.of(p.st)
            n, h = max(n, o.n), max(h, o.hooks)
            self.common(f, name, p, None)
            expect(p, o)
            if o.n:
                self.ck.require(o.log[0] == ("hook",), "R5-hook", f, None, name + "|asked", "the system is called before the hook is asked", p)
        if "fault" in kw:
            return h
        for k in range(1, n + 1):
            for p in self.one_run(name, build, fs, fault=(k, O.EIO), **kw):
                o = O.of(p.st)
                if o.failed is None:
                    continue
                self.common(f, name, p, o.failed)
                self.faulty(f, name, p, o)
        for k in range(1, h + 1 if name != "CloseTwice" else 1):
            for p in self.one_run(name, build, fs, hookfault=k, **kw):
                o = O.of(p.st)
                self.common(f, name, p, "hook")
                self.ck.require(not self.okay(p), "R5-hook", f, None, name + "|error", "the error of the hook is not returned", p)
                st = getattr(o, "stopped", None)
                late = [x for x in o.log[st:] if x[0] not in ("hook", "fclose", "closedir")] if st is not None else []
                self.ck.require(not late, "R5-hook", f, None, name + "|stops", "%s is called although the hook refused" % (late[0][0] if late else ""), p)
        return h

    def faulty(self, f, name, p, o):
        if name == "Mkdir":
            self.ck.require(not p.ok or value(p, p.okval()) == ZERO, "R2-report", f, None, name, "a failing %s is reported as success" % o.failed, p)
        elif name == "Closed":
            return
        elif name == "CloseTwice" and o.failed == "fclose":
            self.ck.require(p.ok, "R3-handle", f, None, name, "the second close of a file is an error", p)
        else:
            self.ck.require(not self.okay(p), "R2-report", f, None, name, "a failing %s is reported as success" % o.failed, p)

    def okay(self, p):
        return p.ok

    def one_run(self, name, build, fs, **kw):
        st = self.state()
        O.start(st, fs, **kw)
        args = build(st)
        for p in self.run(name, args, st):
            self.safe(self.ck.fn(self.ns + name), p, name, "R6-memory")
            yield p

    def common(self, f, name, p, failed):
        o = O.of(p.st)
        self.ck.require(not o.bad, "R3-handle", f, None, name, o.bad[0] if o.bad else "", p)
        self.ck.require(not any(d[2] for d in o.dirs.values()), "R3-handle", f, None, name + "|open", "a directory stays open%s" % (" after %s failed" % failed if failed else ""), p)


def check(ck):
    hs = dict(O.HANDLERS)
    hs["paimon::IOHook::Try"] = h_hook
    for k in ("paimon::Singleton::GetInstance", "paimon::IOHook::GetInstance", "paimon::Singleton<paimon::IOHook>::GetInstance", "paimon::Singleton<IOHook>::GetInstance"):
        hs[k] = lambda eng, e, st, fr: [(st, ("addr", ("T", "hook", "paimon::IOHook")))]
    w = W(ck, "paimon::client16::", handlers=hs)
    tree = {"/d": ("dir",), "/d/f": ("reg", tuple(w.bytes("f", 5))), "/d/e": ("reg", ()), "/d/s": ("dir",), "/d/s/.x": ("reg", (ONE,)), "/d/s/..y": ("dir",), "/d/s/z": ("dir",),
            "/d/p": ("fifo", ()), "/d/k": ("sock", ()), "/d/n": ("dir",)}
    queries(ck, w, tree)
    listing(ck, w, tree)
    changes(ck, w, tree)
    transfer(ck, w, tree)


def same_tree(o, fs):
    return o.fs == fs


def queries(ck, w, tree):
    paths = ["/d", "/d/f", "/d/e", "/d/s", "/d/p", "/d/k", "/d/missing", "/x/y", "/d/f/g", "/secret", "/secret/a"]
    for path in paths:
        kind = (tree.get(path) or ("no",))[0]
        denied = path.startswith("/secret")
        kw = {"denied": ["/secret"]}

        def args(st):
            return [w.text(st, path)]

        def expects(name, want):
            f = ck.fn(L + {"Length": "Length", "Modified": "LastModifiedTimeMs"}.get(name, name))

            def expect(p, o):
                ck.require(same_tree(o, tree), "R1-answer", f, None, name + "|tree", "asking about %s changes the disk" % path, p)
                if want is ERR:
                    ck.require(not p.ok, "R2-report", f, None, name + "|" + kind, "%s of a %s is not an error" % (name, "path without permission" if denied else kind), p)
                elif not p.ok:
                    ck.require(False, "R1-answer", f, None, name + "|" + kind, "%s of a %s is an error" % (name, kind), p)
                else:
                    v = value(p, p.okval())
                    ck.require(w.same_value(p, v, want, "long"), "R1-answer", f, None, name + "|" + kind, "%s of %s (%s) is %s" % (name, path, kind, show(v)[:80]), p)
            w.go(name, f, args, tree, expect, **kw)
        # below a regular file the system says ENOTDIR, which is not "no such file"
        expects("Exists", ERR if denied or path == "/d/f/g" else c(int(kind != "no")))
        expects("IsFile", ERR if kind == "no" else c(int(kind == "reg")))
        expects("IsDir", ERR if kind == "no" else c(int(kind == "dir")))
        size, time = w.var("size", "long"), w.var("time", "long")
        kw = {"denied": ["/secret"], "sizes": {path: (size, time)}}
        # times whose milliseconds fit
        f = ck.fn(L + "GetFileStatus")
        for sz, tm in ((5, 1700000000), (0, 0), (1 << 40, 1), (7, 4102444800), (3, -2)):
            kw = {"denied": ["/secret"], "sizes": {path: (c(sz), c(tm))}}
            expects("Length", ERR if kind == "no" else c(sz))
            expects("Modified", ERR if kind == "no" else c(tm * 1000))
            outs = [("T", w.name("out")) for _ in range(4)]

            def sargs(st):
                return [w.text(st, path)] + [("addr", l) for l in outs]

            def expect(p, o):
                if kind == "no":
                    ck.require(not p.ok, "R2-report", f, None, "Stat", "the status of a missing path is not an error", p)
                    return
                ck.require(p.ok, "R1-answer", f, None, "Stat|error", "the status of a %s is an error" % kind, p)
                if p.ok:
                    got = [p.st.store.get(l) for l in outs]
                    ck.require(got[0] == c(sz) and got[1] == c(tm * 1000) and got[2] == c(int(kind == "dir")), "R1-answer", f, None, "Stat",
                               "the status of a %s of %d bytes is (%s)" % (kind, sz, ", ".join(show(x) for x in got[:3])), p)
                    import seq
                    ck.require(got[3] is not None and seq.chars(got[3]) == [c(b) for b in path.encode()], "R1-answer", f, None, "Stat|path", "the status has another path", p)
            w.go("Stat", f, sargs, tree, expect, **kw)
    import seq
    g = ck.fn(L + "GetParentFile")
    for path, want in (("/a/b", "/a"), ("/a", ""), ("a", ""), ("a/b", "a"), ("/a/b/", "/a/b"), ("/", ""), ("", ""), ("/a//b", "/a/")):
        st = w.state()
        O.start(st, tree)
        for p in w.run("Parent", [w.text(st, path)], st):
            got = "".join(chr(M.cint(w.eng, p.st, x, "char")) for x in seq.chars(value(p, p.val)) or [])
            ck.require(got == want, "R1-answer", g, None, "Parent", "the parent of '%s' is '%s'" % (path, got), p)


def listing(ck, w, tree):
    f = ck.fn(L + "List")
    import seq
    for path, want in (("/d/s", {".x", "..y", "z"}), ("/d/n", set()), ("/d", {"f", "e", "s", "p", "k", "n"}), ("/d/f", None), ("/d/missing", None), ("/secret", None)):
        out = ("T", w.name("names"))

        def args(st):
            from specs import vec
            v = vec(w.eng, st, out, [("s", "old")], "std::string")
            return [w.text(st, path), ("addr", out)]

        def expect(p, o):
            ck.require(same_tree(o, tree), "R1-answer", f, None, "List|tree", "listing changes the disk", p)
            if want is None:
                ck.require(not p.ok, "R2-report", f, None, "List|bad", "listing %s is not an error" % path, p)
                return
            ck.require(p.ok, "R1-answer", f, None, "List|error", "listing %s is an error" % path, p)
            if p.ok:
                cs = cells_of(p, ("ref", out))
                got = [w.eng.read(p.st, x[1], "std::string") if x[0] == "ref" else x for x in cs]
                got = ["".join(chr(M.cint(w.eng, p.st, y, "char")) for y in seq.chars(x) or []) for x in got]
                ck.require(sorted(got) == sorted(want), "R1-answer", f, None, "List", "listing %s gives %s instead of %s" % (path, sorted(got), sorted(want)), p)
        w.go("List", f, args, tree, expect, denied=["/secret"])


def changes(ck, w, tree):
    f, g = ck.fn(L + "Delete"), ck.fn(L + "Mkdir")
    for path, ok in (("/d/f", True), ("/d/n", True), ("/d/s/z", True), ("/d/p", True), ("/d/missing", True), ("/d/s", False), ("/secret", False)):
        after = {k: v for k, v in tree.items() if k != path} if ok else tree

        def expect(p, o):
            ck.require(p.ok == ok, "R1-answer" if ok else "R2-report", f, None, "Delete", "deleting %s is %s" % (path, "an error" if ok else "no error"), p)
            ck.require(same_tree(o, after), "R1-answer", f, None, "Delete|tree", "deleting %s leaves %s" % (path, sorted(o.fs)), p)
        w.go("Delete", f, lambda st: [w.text(st, path)], tree, expect, denied=["/secret"])
    # a file that somebody else removes in between is gone, as wanted
    for n in range(1, 4):
        st = w.state()
        O.start(st, tree, fault=(n, O.ENOENT))
        for p in w.run("Delete", [w.text(st, "/d/f")], st):
            if O.of(p.st).failed is not None:
                ck.require(p.ok, "R1-answer", f, None, "Delete|race", "deleting a file that vanishes meanwhile (%s) is an error" % O.of(p.st).failed, p)
    for path, made in (("/d/new", True), ("/d/f", False), ("/d/s", False), ("/x/y", False)):
        after = dict(tree, **({path: ("dir",)} if made else {}))

        def expect(p, o):
            ck.require(p.ok and value(p, p.okval()) == c(int(made)), "R1-answer", g, None, "Mkdir", "creating %s does not answer %s" % (path, made), p)
            ck.require(same_tree(o, after), "R1-answer", g, None, "Mkdir|tree", "creating %s leaves %s" % (path, sorted(o.fs)), p)
        w.go("Mkdir", g, lambda st: [w.text(st, path)], tree, expect)


def transfer(ck, w, tree):
    data = list(tree["/d/f"][1])
    o_ = ck.fn(L + "OpenFile")
    hooks = {}
    for path, read, ok in (("/d/f", True, True), ("/d/e", True, True), ("/d/missing", True, False), ("/d/s", True, False), ("/secret", True, False), ("/d/f", False, True),
                           ("/d/new", False, True), ("/d/s", False, False), ("/x/y", False, False)):
        after = tree if read or not ok else dict(tree, **{path: ("reg", ())})

        def expect(p, o):
            ck.require(p.ok == ok, "R1-answer" if ok else "R2-report", o_, None, "Open", "opening %s for %s is %s" % (path, "reading" if read else "writing", "an error" if ok else "no error"), p)
            ck.require(same_tree(o, after), "R1-answer", o_, None, "Open|tree", "opening %s for %s changes the disk" % (path, "reading" if read else "writing"), p)
            if ok and p.ok:
                ck.require(len([h for h in o.files.values() if h["open"]]) == 1, "R3-handle", o_, None, "Open|one", "opening %s leaves %d open files" % (path, len(o.files)), p)
        h = w.go("Open", o_, lambda st: [w.text(st, path), c(int(read))], tree, expect, denied=["/secret"])
        if ok:
            hooks[read] = max(hooks.get(read, 0), h)

    def buf(st, n):
        return ("ptr", M.new_block(w.eng, st, n, "buf"), 0)

    def reads(name, extra, want, n, f, first=0, ask=0, **kw):
        cell = {}

        def args(st):
            cell["b"] = buf(st, n)
            return [w.text(st, "/d/f"), cell["b"]] + [c(x) for x in extra]

        def expect(p, o):
            ck.require(same_tree(o, tree), "R1-answer", f, None, name + "|tree", "reading changes the disk", p)
            if want is ERR:
                ck.require(not p.ok, "R2-report", f, None, name + "|bad", "%s%s is not an error" % (name, extra), p)
                return
            ck.require(p.ok, "R4-data", f, None, name + "|error", "%s%s is an error" % (name, extra), p)
            if p.ok:
                b = cell["b"]
                ck.require(value(p, p.okval()) == c(len(want) - first), "R4-data", f, None, name + "|count", "%s%s reports %s bytes" % (name, extra, show(value(p, p.okval()))), p)
                got = w.sure(p, M.get(w.eng, p.st, b[1], b[2], len(want)))
                ck.require(w.same_all(p, got, want), "R4-data", f, None, name, "%s%s reads [%s] instead of [%s]" % (name, extra, hexs(got), hexs(want)), p)
        h = w.go(name, f, args, tree, expect, **kw)
        ck.require(h >= hooks[True] + 1, "R5-hook", f, None, name + "|hook", "the hook is not asked by the operation itself")
    f1, f2 = ck.fn(L + "Read", 2), ck.fn(L + "Read", 3)
    fs, ft, fw, ff, fc = ck.fn(L + "Seek"), ck.fn(L + "Tell"), ck.fn(L + "Write"), ck.fn(L + "Flush"), ck.fn(L + "Close")
    for n in (0, 1, 4, 5, 8):
        reads("Read", [n], data[:n], max(n, 1), f1)
        for off in (0, 1, 3, 5, 9):
            for chunk in (1, 2, 1 << 30):
                reads("ReadAt", [n, off], data[off:off + n], max(n, 1), f2, chunk=chunk)
        for m in (0, 1, 3):
            reads("ReadTwice", [m, n], data[:m + n], 16, f1, first=min(m, 5))
    for big in (1 << 31, (1 << 32) - 1, (1 << 31) + 5):
        reads("Read", [big], ERR, 4, f1)
        reads("ReadAt", [big, 0], ERR, 4, f2)
    for skip, off, org, want in ((2, 0, 0, data[:2]), (2, 3, 0, data[3:5]), (1, 1, 1, data[2:4]), (3, -2, 1, data[1:3]), (0, -1, 2, data[4:]), (0, -5, 2, data[:2]), (5, 0, 2, []), (1, -2, 1, ERR),
                                 (0, -1, 0, ERR), (0, 0, 7, ERR), (6, 0, 0, data[:2])):
        reads("SeekRead", [skip, off, org, 2], want, 8, fs)
    for skip in (0, 1, 5, 9):
        def expect(p, o):
            ck.require(p.ok and value(p, p.okval()) == c(min(skip, 5)), "R1-answer", ft, None, "Tell", "the position after reading %d bytes is wrong" % skip, p)
        w.go("Tell", ft, lambda st: [w.text(st, "/d/f"), buf(st, 10), c(skip)], tree, expect)
    out = w.bytes("w", 6)

    def writes(name, extra, want, f, path="/d/f", flushed=True, result=None):
        after = dict(tree, **{path: ("reg", tuple(want))}) if want is not ERR else None

        def expect(p, o):
            if want is ERR:
                ck.require(not p.ok, "R2-report", f, None, name + "|bad", "%s%s is not an error" % (name, extra), p)
                return
            ck.require(p.ok, "R4-data", f, None, name + "|error", "%s%s is an error" % (name, extra), p)
            if p.ok:
                h = list(o.files.values())[0]
                got = list(O.content(p.st, h)) + ([] if flushed else list(h["buf"]))
                ck.require(w.same_all(p, got, want), "R4-data", f, None, name, "%s%s leaves [%s] in the file instead of [%s]" % (name, extra, hexs(got), hexs(want)), p)
                if result is not None:
                    ck.require(value(p, p.okval()) == c(result), "R4-data", f, None, name + "|count", "%s%s reports %s bytes" % (name, extra, show(value(p, p.okval()))), p)
                if name == "WriteFlush":
                    ck.require(h["synced"], "R4-data", f, None, name + "|sync", "flushed bytes are not forced to the disk", p)
                if name == "WriteClose":
                    ck.require(not h["open"], "R3-handle", f, None, name + "|closed", "the file is still open after closing", p)
        h = w.go(name, f, lambda st: [w.text(st, path), w.block(st, out)] + [c(x) for x in extra], tree, expect)
        ck.require(h >= hooks[False] + 1, "R5-hook", f, None, name + "|hook", "the hook is not asked by the operation itself")
    for path in ("/d/f", "/d/new"):
        for n in (0, 1, 3, 6):
            writes("Write", [n], out[:n], fw, path, flushed=False, result=n)
            writes("WriteClose", [n], out[:n], fc, path)
        for a, b in ((1, 2), (0, 3), (3, 0), (4, 2)):
            writes("WriteFlush", [a, b], out[:a + b], ff, path)
    for big in (1 << 31, (1 << 32) - 1):
        writes("Write", [big], ERR, fw)

    def expect(p, o):
        ck.require(p.ok, "R3-handle", fc, None, "CloseTwice", "the second close of a file is an error", p)
    w.go("CloseTwice", fc, lambda st: [w.text(st, "/d/f")], tree, expect)
    for opened in (0, 1):
        def expect(p, o):
            ck.require(p.val == c(64), "R3-handle", fc, None, "Closed", "operations on a file that is not open answer %s instead of 64 (only closing is fine)" % show(p.val), p)
            ck.require(same_tree(o, tree), "R1-answer", fc, None, "Closed|tree", "operations on a file that is not open change the disk", p)
        for p in w.one_run("Closed", lambda st: [w.text(st, "/d/f"), buf(st, 4), c(opened)], tree):
            w.common(fc, "Closed", p, None)
            expect(p, O.of(p.st))
