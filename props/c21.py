"""The factory registry finds exactly what was registered, and the io hook fails at exactly the asked position.

Clients (inst/c21.cpp, public interface only) fill a registry with every subset of three names, register a further one,
and look up present, absent and wrong kinds of factories through every typed lookup.  Every operation is repeated with
another thread registering at each of its lock acquisitions.  The hook is followed for positions and attempts 0..4."""
import conc
import seq
from dom import NULL, ONE, ZERO, c, op
from rules import AnalysisBroken, Path, show, teq
from specs import cells_of, constref, loc_of, strarg, value

PREFIXES = ["common/factories/", "common/fs/file_system_factory", "common/format/file_format_factory",
            "common/file_index/file_indexer_factory", "common/global_index/global_indexer_factory",
            "common/file_index/bitmap/bitmap_file_index_factory", "common/file_index/bsi/bit_slice_index_bitmap_file_index_factory",
            "common/file_index/bloomfilter/bloom_filter_file_index_factory", "common/global_index/bitmap/bitmap_global_index_factory",
            "fs/local/local_file_system_factory", "format/avro/avro_file_format_factory",
            "format/blob/blob_file_format_factory"]
CLIENTS = ["c21"]
MIN_OBLIGATIONS = 300
RULES = {
    "R1-find": "a name finds the factory registered under it, any other name finds nothing; the names are listed once each",
    "R2-once": "a name can be registered once; a second registration ends the process and never replaces the first",
    "R3-typed": "a typed lookup uses the factory of that name and kind with the given options; a missing or other kind is refused",
    "R4-atomic": "a registration of another thread at any lock acquisition is neither lost nor does it disturb the operation",
    "R5-locks": "the registry is only touched with its lock held; no lock is taken twice",
    "R6-single": "everybody gets the same registry and hook, also when two threads ask first",
    "R7-hook": "attempts before the position succeed and are counted, later ones follow the mode, clearing ends it",
    "R8-release": "unregistering and destruction release each factory exactly once",
    "R9-names": "every shipped factory registers under its persisted name",
}
K = "paimon::client21::"
NAMES = ("a", "b", "c")
# names that tables and files on disk refer to
SHIPPED = {"BitmapFileIndexFactory": "bitmap", "BitSliceIndexBitmapFileIndexFactory": "bsi", "BloomFilterFileIndexFactory": "bloom-filter",
           "BitmapGlobalIndexFactory": "bitmap-global", "LocalFileSystemFactory": "local", "AvroFileFormatFactory": "avro",
           "BlobFileFormatFactory": "blob"}


def made(eng, e, st, fr):
    """a product that names its factory and its arguments"""
    out = []
    for s, vs in eng.evs(e["a"], st, fr):
        if vs[0] == c(-1):
            out.append((s, ("err", "IOError")))
            continue
        vals = tuple(eng.argval(s, v, a.get("t")) for v, a in zip(vs, e["a"]))
        out.append((s, ("okv", op("made", *vals))))
    return out


class W:
    def __init__(self, ck):
        self.ck = ck
        h = {K + n: made for n in ("MadeFormat", "MadeFileSystem", "MadeIndexer", "MadeGlobalIndexer")}
        self.eng = ck.engine(seq=True, max_depth=40, handlers=h)
        self.eng.join = False
        self.eng.exact_throw = True
        self.eng.recursion = 6
        self.th = conc.Threads(ck, self.eng, K)
        self.bare = set()
        write = self.eng.write

        def watched(s, loc, *a, **kw):
            if loc[0] == "G" and loc[1].startswith("static:") and not s.locks:
                self.bare.add(loc[1])
            return write(s, loc, *a, **kw)
        self.eng.write = watched

    def run(self, name, args, ends=False):
        f = self.ck.fn(K + name)
        st = self.eng.new_state()
        vs = []
        for i, a in enumerate(args):
            vs.append(strarg(self.eng, st, a, "n%d" % i) if isinstance(a, str) else a)
        self.eng.aborts.clear()
        if ends:
            self.ck.fnset[f["id"]] = f
            return f, [Path(self.eng, k, s, v) for k, s, v in self.eng.run(f, args=vs, st=st)]
        return f, self.ck.run(f, self.eng, args=vs, st=st)


def bits(m):
    return [c(m >> i & 1) for i in range(3)]


def names_of(m):
    return [n for i, n in enumerate(NAMES) if m >> i & 1]


def mark_of(m, n):
    return 1 + NAMES.index(n) if n in NAMES and m >> NAMES.index(n) & 1 else -1


def texts(p, v):
    cs = cells_of(p, v)
    if cs is None:
        raise AnalysisBroken("the list %s is not known" % show(v))
    out = []
    for x in cs:
        x = seq.load(p.eng, p.st, x)
        if x[0] not in ("s", "c"):
            raise AnalysisBroken("element %s is not known" % show(x))
        out.append(x[1])
    return out


def num(p, v):
    v = value(p, v)
    if v[0] != "c":
        raise AnalysisBroken("%s is not known" % show(v))
    return v[1]


def check(ck):
    w = W(ck)
    th = w.th

    def safe(rule, f, p, key):
        null = p.st.ghost.get("null")
        if "bad:" in show(p.val):
            ck.bad(rule, f, None, key + "|end", "the end of the registry is followed as if it were an entry", p)
            return False
        return ck.require(null is None, rule, f if null is None else null[0], null and null[1], key + "|null", "a null pointer is followed", p)

    for m in range(8):
        f, ps = w.run("Types", bits(m))
        for p in ps:
            ck.require(texts(p, p.val) == names_of(m), "R1-find", f, None, "Types|%d" % m,
                       "after registering %s the names are %s" % (names_of(m), texts(p, p.val)), p)
        for n in NAMES + ("d", ""):
            f, ps = w.run("Find", bits(m) + [n])
            for p in ps:
                key = "Find|%d|%s" % (m, n)
                if safe("R1-find", f, p, key):
                    ck.require(num(p, p.val) == mark_of(m, n), "R1-find", f, None, key,
                               "with %s registered, '%s' finds factory %d instead of %d" % (names_of(m), n, num(p, p.val), mark_of(m, n)), p)
            f, ps = w.run("FindTwice", bits(m) + [n])
            for p in ps:
                key = "FindTwice|%d|%s" % (m, n)
                if safe("R1-find", f, p, key):
                    v = p.val
                    ck.require((num(p, v[2]), num(p, v[3])) == (mark_of(m, n),) * 2, "R1-find", f, None, key, "looking up '%s' a second time differs" % n, p)

    def after(m, n, extra=None):
        have = {x: mark_of(m, x) for x in names_of(m)}
        have[n] = 9
        if extra:
            have[extra] = 8
        return sorted(have), [have.get(x, -1) for x in NAMES + ("d",)]

    def added(rule, m, n, want, text):
        f, ps = w.run("Add", bits(m) + [n], ends=True)
        if th.at and not th.fired:
            return False
        if want is None:
            ck.require(not ps and w.eng.aborts, "R2-once", f, None, "Add|%d|%s|%s" % (m, n, text),
                       "registering '%s' a second time %sgoes on" % (n, text + " "), ps[0] if ps else None)
            return True
        ck.require(ps and not w.eng.aborts, rule, f, None, "Add|%d|%s|%s|end" % (m, n, text), "registering the new name '%s' %s ends the process" % (n, text))
        for p in ps:
            v = p.val
            got = (texts(p, v[2]), texts(p, v[3]))
            ck.require(got == want, rule, f, None, "Add|%d|%s|%s" % (m, n, text),
                       "registering '%s' beside %s %s gives names %s with factories %s" % (n, names_of(m), text, got[0], got[1]), p)
        return True
    for m in range(8):
        for n in NAMES + ("d",):
            added("R1-find", m, n, None if n in names_of(m) else after(m, n), "")
            for o in ("a", "d"):
                if o in names_of(m):
                    continue
                th.other, th.args = ck.fn(K + "OtherAdd"), [constref(w.eng, w.eng.new_state(), ("s", o))]
                for k in range(1, 6):
                    th.at, th.fired = k, 0
                    th.args = [("s", o)]
                    if not added("R4-atomic", m, n, None if n in names_of(m) or n == o else after(m, n, o), "while another thread registers '%s' at lock %d" % (o, k)):
                        break
                    if k == 5:
                        raise AnalysisBroken("more than four locks in a registration")
                th.at = None
        for o in ("a", "d"):
            if o in names_of(m):
                continue
            th.other, th.args = ck.fn(K + "OtherAdd"), [("s", o)]
            for k in range(1, 6):
                th.at, th.fired = k, 0
                f, ps = w.run("TypesMeanwhile", bits(m))
                hit = th.fired
                if hit:
                    for p in ps:
                        ck.require(texts(p, p.val) in (names_of(m), sorted(names_of(m) + [o])), "R4-atomic", f, None, "Types|%d|%s|%d" % (m, o, k),
                                   "the names are %s while another thread registers '%s'" % (texts(p, p.val), o), p)
                for n in ("a", "b", "d"):
                    th.fired = 0
                    f, ps = w.run("FindMeanwhile", bits(m) + [n])
                    if th.fired:
                        hit = 1
                        for p in ps:
                            key = "Find|%d|%s|%s|%d" % (m, n, o, k)
                            if safe("R4-atomic", f, p, key):
                                ck.require(num(p, p.val) in (mark_of(m, n), 8 if n == o else mark_of(m, n)), "R4-atomic", f, None, key,
                                           "'%s' finds %d while another thread registers '%s'" % (n, num(p, p.val), o), p)
                if not hit:
                    break
            th.at = None
    conc.lockset(ck, "R5-locks", "paimon::FactoryCreator")
    for k, t in sorted(th.dead.items(), key=str):
        ck.bad("R5-locks", ck.fn(K + "Add"), None, "again|%s" % show(k[0]), t)

    # one instance
    for n in ("SameRegistry", "SameHook"):
        f, ps = w.run(n, [])
        for p in ps:
            ck.require(num(p, p.val) == 1, "R6-single", f, None, n, "two requests for the instance get different objects", p)
    for k in range(1, 6):
        th.at, th.fired, th.other, th.args = k, 0, ck.fn(K + "OtherInstance"), []
        f, ps = w.run("RegistryMeanwhile", [])
        if not th.fired:
            break
        for p in ps:
            ck.require(num(p, p.val) == 1, "R6-single", f, None, "RegistryMeanwhile|%d" % k, "two threads that ask first get different registries", p)
    th.at = None
    f = ck.fn(K + "RegistryMeanwhile")
    ck.require(not w.bare, "R6-single", f, None, "bare", "the shared instance pointer is written without a lock: %s" % ", ".join(sorted(w.bare)))

    # typed lookups
    opts = op("options")
    for fn, kinds, missing, extra in (("GetFormat", {"format": 11, "badformat": -1}, "error", []),
                                      ("GetFileSystem", {"fs": 12, "badfs": -1}, "error", [("s", "/p")]),
                                      ("GetIndexer", {"indexer": 13, "badindexer": -1}, "null", []),
                                      ("GetGlobalIndexer", {"global": 14, "badglobal": -1}, "null", [])):
        for n in ("format", "badformat", "fs", "badfs", "indexer", "badindexer", "global", "badglobal", "plain", "none", "", "global-global"):
            f = ck.fn(K + fn)
            st = w.eng.new_state()
            a = [strarg(w.eng, st, n, "name")] + ([strarg(w.eng, st, "/p", "path")] if extra else []) + [constref(w.eng, st, opts, "opts")]
            for p in ck.run(f, w.eng, args=a, st=st):
                key = "%s|%s" % (fn, n)
                if not safe("R3-typed", f, p, key):
                    continue
                mark = kinds.get(n)
                if mark is None:
                    good = not p.ok if missing == "error" else p.ok and value(p, p.okval()) == NULL
                    what = "is an error" if missing == "error" else "gives nothing"
                    ck.require(good, "R3-typed", f, None, key, "%s of '%s', which is not registered as that kind, %s" % (fn, n, "does not fail" if missing == "error" else "does not give an empty answer"), p)
                elif mark < 0:
                    ck.require(not p.ok, "R3-typed", f, None, key, "%s of '%s' hides the failure of the factory" % (fn, n), p)
                else:
                    want = op("made", c(mark), *(extra + [opts]))
                    if not ck.require(p.ok, "R3-typed", f, None, key, "%s of '%s' fails" % (fn, n), p):
                        continue
                    got = value(p, p.okval())
                    if not (got == NULL or got[0] == "op" and got[1] == "made"):
                        raise AnalysisBroken("%s gives %s" % (fn, show(got)))
                    ck.require(got == want, "R3-typed", f, None, key, "%s of '%s' gives %s instead of %s" % (fn, n, show(got), show(want)), p)

    # the hook
    modes = {"RETURN_ERROR": "error", "THROW_EXCEPTION": "throw", "SILENT": "ok"}
    en = {x[0]: int(x[1]) for x in ck.prog.enums["paimon::IOHook::Mode"]["e"]}
    for mode, kind in modes.items():
        mv = c(en[mode])
        for pos in range(-1, 4):
            for n in range(1, 6):
                if kind == "throw" and n > max(pos, 0) + 1:
                    continue    # an earlier attempt has thrown
                want = "ok" if n - 1 < pos else kind
                f, ps = w.run("Attempt", [c(pos), mv, c(n)], ends=True)
                outcome(ck, f, ps, want, "attempt %d with the failure at %d and mode %s" % (n, pos, mode))
                f, ps = w.run("AttemptReset", [c(3), c(pos), mv, c(n)], ends=True)
                outcome(ck, f, ps, want, "attempt %d after setting the failure to %d and mode %s again" % (n, pos, mode))
            for n in range(0, 5):
                if kind == "throw" and n > max(pos, 0):
                    continue
                for fn, want in (("Attempts", n), ("AttemptsCleared", 0)):
                    f, ps = w.run(fn, [c(pos), mv, c(n)])
                    for p in ps:
                        ck.require(num(p, p.val) == want, "R7-hook", f, None, "%s|%s|%d|%d" % (fn, mode, pos, n),
                                   "%d attempts are counted as %d%s" % (n, num(p, p.val), " after clearing" if want != n else ""), p)
                f, ps = w.run("AttemptCleared", [c(pos), mv, c(n)], ends=True)
                outcome(ck, f, ps, "ok", "an attempt after clearing mode %s" % mode)
    f, ps = w.run("Fresh", [])
    outcome(ck, f, ps, "ok", "an attempt of a new hook")
    f, ps = w.run("FreshCount", [])
    for p in ps:
        ck.require(num(p, p.val) == 0, "R7-hook", f, None, "FreshCount", "a new hook has counted %d attempts" % num(p, p.val), p)
    release(ck, w)
    shipped(ck)


def outcome(ck, f, ps, want, text):
    # a path that ends in an exception does not reach the end of the client
    for p in ps or [None]:
        got = "throw" if p is None or p.val == ("throw",) else "ok" if p.ok else "error"
        ck.require(got == want, "R7-hook", f, None, "%s|%s" % (f["fn"], text), "%s: %s instead of %s" % (text, got, want), p)


def release(ck, w):
    cls = "paimon::FactoryCreator"
    mk = ck.fn(K + "Make")
    for m in range(8):
        ps = ck.run(mk, w.eng, args=bits(m), st=w.eng.new_state())
        if len(ps) != 1:
            raise AnalysisBroken("making a registry has %d paths" % len(ps))
        this = loc_of(w.eng, ps[0].val)
        fields = [x["n"] for x in ck.record(cls)["fields"] if "std::map" in x["t"] or "unordered_map" in x["t"]]
        if len(fields) != 1:
            raise AnalysisBroken("the registry keeps its factories in %d maps" % len(fields))
        table = {}
        for x in cells_of(ps[0], ("ref", ("F", this, fields[0]))):
            x = seq.load(w.eng, ps[0].st, x)
            table[x[2][1]] = x[3]
        d = ck.fn(cls + "::~FactoryCreator")
        for p in ck.run(d, w.eng, this=this, st=ps[0].st.copy()):
            gone = [e.obj for e in p.events("delete")]
            ck.require(sorted(map(str, gone)) == sorted(map(str, table.values())), "R8-release", d, None, "dtor|%d" % m,
                       "destruction releases %d factories, %d are registered" % (len(gone), len(table)), p)
        if not ck.has_fn(cls + "::TEST_Unregister"):
            continue
        u = ck.fn(cls + "::TEST_Unregister")
        for n in NAMES + ("d",):
            st = ps[0].st.copy()
            for p in ck.run(u, w.eng, this=this, args=[strarg(w.eng, st, n, "u")], st=st):
                gone = [e.obj for e in p.events("delete")]
                want = [table[n]] if n in table else []
                ck.require(gone == want, "R8-release", u, None, "unregister|%d|%s" % (m, n), "unregistering '%s' releases %d factories" % (n, len(gone)), p)
                left = [seq.load(w.eng, p.st, x)[2][1] for x in cells_of(p, ("ref", ("F", this, fields[0])))]
                ck.require(left == [x for x in names_of(m) if x != n], "R8-release", u, None, "left|%d|%s" % (m, n),
                           "after unregistering '%s' from %s the names are %s" % (n, names_of(m), left), p)


def shipped(ck):
    seen = {}
    for f in sorted(ck.prog.by_id.values(), key=lambda f: f["fn"]):
        if not f["fn"].rsplit("::", 1)[-1].startswith("Register") or f.get("cls") or f.get("params") or f["file"].startswith("/verif"):
            continue
        got = []

        def reg(eng, e, st, fr, got=got):
            out = []
            for s, vs in eng.evs(e["a"], st, fr):
                got.append((eng.argval(s, vs[0], e["a"][0].get("t")), vs[1]))
                out.append((s, op("void")))
            return out
        eng = ck.engine(handlers={"paimon::FactoryCreator::Register": reg})
        ck.run(f, eng)
        for name, obj in got:
            l = obj[1] if obj[0] == "addr" else None
            cls = l[2].rsplit("::", 1)[-1] if l and l[0] == "T" and len(l) > 2 else None
            if name[0] != "s" or cls is None:
                raise AnalysisBroken("%s registers %s under %s" % (f["fn"], show(obj), show(name)))
            ck.require(name[1] not in seen, "R9-names", f, None, "dup|" + name[1], "%s and %s register under '%s'" % (cls, seen.get(name[1]), name[1]))
            seen[name[1]] = cls
            if cls in SHIPPED:
                ck.require(name[1] == SHIPPED[cls], "R9-names", f, None, "name|" + cls, "%s registers as '%s', tables refer to it as '%s'" % (cls, name[1], SHIPPED[cls]))
    for cls, n in SHIPPED.items():
        ck.require(n in seen, "R9-names", ck.fn("paimon::FactoryCreator::Register"), None, "missing|" + cls, "no factory registers as '%s'" % n)
