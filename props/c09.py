"""Memory pools hand out what was asked for and account for it; byte buffers own their memory exactly once.

Clients (inst/c09.cpp, public interface only) allocate, resize and release blocks of unknown sizes; the system allocator is
replaced by a model (blocks with size, alignment, contents and life time, with the request of choice failing).  Every
operation is repeated with another thread's operation at each of its atomic accesses.  Byte buffers are followed in the
byte-memory domain with two distinct pools."""
import bytespec as Y
import conc
import mem as M
from absint import _obj_locs
from dom import NULL, ONE, ZERO, add, c, ge, op, sub
from rules import AnalysisBroken, show, teq
from specs import le, need, value

PREFIXES = ["common/memory/"]
CLIENTS = ["c09"]
MIN_OBLIGATIONS = 300
RULES = {
    "R1-block": "a block has at least the asked size and alignment, lives until it is released and keeps its contents when resized",
    "R2-usage": "the usage is the sum of the sizes of the blocks in use",
    "R3-peak": "the peak is the largest usage so far",
    "R4-fail": "when the system has no memory an exception tells so and nothing else changes",
    "R5-atomic": "with another thread at any atomic access usage and peak count both operations",
    "R6-owner": "a buffer releases its memory once, to the pool it came from, with its size; moving transfers it",
    "R7-bytes": "a buffer holds the given bytes, else zeros; comparisons are those of unsigned bytes, then length",
    "R8-deleter": "a pooled object is destroyed and its memory goes back to its pool with its size",
    "R9-pools": "everybody shares one default pool; created pools are separate",
}
K = "paimon::client09::"
LIM = 1 << 40


class Heap:
    """blocks of the system allocator"""

    def __init__(self, ck):
        self.ck = ck
        self.n = 0
        self.fail = None
        h = {"posix_memalign": self.memalign, "realloc": self.realloc, "free": self.free, "std::free": self.free, "std::realloc": self.realloc,
             "malloc": self.malloc, "std::malloc": self.malloc, "aligned_alloc": self.aligned, "std::aligned_alloc": self.aligned,
             "memcpy": self.copy, "std::memcpy": self.copy, "memmove": self.copy, "std::memmove": self.copy, K + "Note": self.note}
        self.eng = ck.engine(seq=True, max_depth=40, handlers=h, unroll=12, split_wraps=True)
        self.eng.join = False
        self.eng.exact_throw = self.eng.call_throw = True
        self.th = conc.Threads(ck, self.eng, K)
        self.eng.on_atomic = self.th.atomic

    def blk(self, s, p):
        if p is None or p[0] != "addr" or ("blk", p[1]) not in s.ghost:
            raise AnalysisBroken("block %s is not known" % show(p))
        return s.ghost[("blk", p[1])]

    def fresh(self, s, size, align, content=None):
        self.n += 1
        l = ("T", "block%d" % self.n, "char")
        # size, alignment, alive, (original block, number of bytes kept)
        s.ghost[("blk", l)] = (size, align, True, content or (l, size))
        return ("addr", l)

    def asked(self, s):
        s.ghost["asked"] = s.ghost.get("asked", 0) + 1
        return self.fail is not None and s.ghost["asked"] >= self.fail

    def memalign(self, eng, e, st, fr):
        out = []
        for s, vs in eng.evs(e["a"], st, fr):
            if self.asked(s):
                out.append((s, c(12)))
                continue
            if vs[0][0] != "addr":
                raise AnalysisBroken("posix_memalign into %s" % show(vs[0]))
            eng.write(s, vs[0][1], self.fresh(s, vs[2], vs[1]), e, fr)
            out.append((s, ZERO))
        return out

    def malloc(self, eng, e, st, fr):
        return [(s, NULL if self.asked(s) else self.fresh(s, vs[0], c(16))) for s, vs in eng.evs(e["a"], st, fr)]

    def aligned(self, eng, e, st, fr):
        return [(s, NULL if self.asked(s) else self.fresh(s, vs[1], vs[0])) for s, vs in eng.evs(e["a"], st, fr)]

    def kill(self, s, p, e):
        b = self.blk(s, p)
        if not b[2]:
            s.ghost["twice"] = e.get("l", 0)
        s.ghost[("blk", p[1])] = b[:2] + (False,) + b[3:]

    def free(self, eng, e, st, fr):
        out = []
        for s, vs in eng.evs(e["a"], st, fr):
            for s2, null in self.isnull(s, vs[0]):
                if not null:
                    self.kill(s2, vs[0], e)
                out.append((s2, op("void")))
        return out

    def isnull(self, s, p):
        if p == NULL:
            return [(s, True)]
        self.blk(s, p)
        return [(s, False)]

    def realloc(self, eng, e, st, fr):
        out = []
        for s, (p, n) in eng.evs(e["a"], st, fr):
            if p == NULL:
                out.append((s, NULL if self.asked(s) else self.fresh(s, n, c(16))))
                continue
            b = self.blk(s, p)
            for s2, none in eng.branch(s, eng.compare(s, "==", n, ZERO, "unsigned long")):
                if none:        # releases the block and gives nothing
                    self.kill(s2, p, e)
                    out.append((s2, NULL))
                elif self.asked(s2):
                    out.append((s2, NULL))
                else:
                    for s3, more in eng.branch(s2, ge(n, b[3][1])):
                        if not b[2]:
                            s3.ghost["twice"] = e.get("l", 0)
                        x = self.fresh(s3, n, c(16), (b[3][0], b[3][1] if more else n))
                        self.kill(s3, p, e)
                        out.append((s3, x))
        return out

    def copy(self, eng, e, st, fr):
        out = []
        for s, (d, x, n) in eng.evs(e["a"], st, fr):
            a, b = self.blk(s, d), self.blk(s, x)
            if not (a[2] and b[2]):
                s.ghost["dead"] = e.get("l", 0)
            for q, t in ((a, "to"), (b, "from")):
                if s.facts.truth(ge(q[0], n)) is not True:
                    s.ghost["over"] = (e.get("l", 0), t)
            for s2, more in eng.branch(s, ge(n, b[3][1])):
                s2.ghost[("blk", d[1])] = a[:3] + ((b[3][0], b[3][1] if more else n),)
                out.append((s2, d))
        return out

    def note(self, eng, e, st, fr):
        out = []
        for s, vs in eng.evs(e["a"], st, fr):
            s.ghost["notes"] = s.ghost.get("notes", ()) + (tuple(vs) + ({k[1]: v for k, v in s.ghost.items() if isinstance(k, tuple) and k[0] == "blk"},),)
            out.append((s, op("void")))
        return out

    def run(self, name, args, assume=()):
        f = self.ck.fn(K + name)
        st = self.eng.new_state()
        for a in args:
            if a[0] == "v":
                st.facts.assume(ge(a, ZERO), True)
                st.facts.assume(le(a, c(LIM)), True)
        for x, b in assume:
            st.facts.assume(x, b)
        self.eng.steps = 0
        return f, self.ck.run(f, self.eng, args=args, st=st)


def pools(ck):
    h = Heap(ck)
    n1, n2, n, al = (("v", x) for x in ("n1", "n2", "n", "align"))
    align = [(ge(al, c(8)), True)]

    def base(f, p, key):
        g = p.st.ghost
        for k, t in (("twice", "a block is released twice"), ("dead", "a released block is accessed"), ("over", "more is copied than a block holds")):
            ck.require(k not in g, "R1-block", f, None, key + "|" + k, "%s: %s (%s)" % (key, t, g.get(k)), p)
        return g.get("notes", ())

    def usage(f, p, key, note, want, rule="R2-usage"):
        ck.require(teq(p, note[1], want), rule, f, None, key + "|usage", "%s: the usage is %s, expected %s" % (key, show(note[1]), show(want)), p)

    def peak(f, p, key, note, wants, atmost=None, rule="R3-peak"):
        """the largest of wants; atmost: what was in use at once at some moment of the operation"""
        v = note[2]
        lo = [p.st.facts.truth(ge(v, x)) for x in wants]
        hi = any(p.st.facts.truth(ge(x, v)) for x in list(wants) + ([atmost] if atmost else []))
        if None in lo and rule == "R3-peak" and v[0] not in ("c", "v", "lin", "op"):
            raise AnalysisBroken("the peak %s is not known" % show(v))
        ck.require(all(lo) and hi, rule, f, None, key + "|peak", "%s: the peak is %s, expected the largest of %s" % (key, show(v), ", ".join(show(x) for x in wants)), p)

    def block(f, p, key, note, size, align, kept=None):
        b = note[3].get(note[0][1]) if note[0] is not None and note[0][0] == "addr" else None
        if not ck.require(b is not None and b[2], "R1-block", f, None, key + "|block", "%s: no block in use is returned (%s)" % (key, show(note[0])), p):
            return
        ck.require(p.st.facts.truth(ge(b[0], size)) is True, "R1-block", f, None, key + "|size",
                   "%s: the block has %s bytes, asked were %s" % (key, show(b[0]), show(size)), p)
        if align is not None:
            ok = teq(p, b[1], align) or (align == c(8) and b[1][0] == "c" and b[1][1] >= 8)
            ck.require(ok, "R1-block", f, None, key + "|align", "%s: the block is aligned to %s, asked was %s" % (key, show(b[1]), show(align)), p)
        if kept is not None:
            ck.require(b[3][0] == kept[0] and any(all(p.st.facts.truth(ge(b[3][1], y)) is True for y in x) for x in kept[1]), "R1-block", f, None, key + "|contents",
                       "%s: the new block keeps %s bytes of %s" % (key, show(b[3][1]), "the old block" if b[3][0] == kept[0] else "nothing"), p)

    def alive(f, p, key, note, want):
        n = [k for k, b in note[3].items() if b[2]]
        ck.require(len(n) == want, "R1-block", f, None, key + "|alive", "%s: %d blocks are in use, expected %d" % (key, len(n), want), p)

    # ---- allocation
    for a, az in ((ZERO, None), (al, al)):
        f, ps = h.run("Malloc", [n1, n2, n, a], align)
        t = add(n1, n2)
        for p in ps:
            ns = base(f, p, "Malloc")
            if len(ns) != 7:
                raise AnalysisBroken("Malloc: %d reports" % len(ns))
            for i, (u, pk, live) in enumerate(((ZERO, [ZERO], 0), (n1, [n1], 1), (t, [t], 2), (n1, [t], 1), (add(n1, n), [t, add(n1, n)], 2),
                                               (n, [t, add(n1, n)], 1), (ZERO, [t, add(n1, n)], 0))):
                key = "Malloc|%d" % i
                usage(f, p, key, ns[i], u)
                peak(f, p, key, ns[i], pk)
                alive(f, p, key, ns[i], live)
            block(f, p, "Malloc|1", ns[1], n1, c(8))
            block(f, p, "Malloc|2", ns[2], n2, c(8))
            block(f, p, "Malloc|4", ns[4], n, az if az else c(8))
    # ---- resizing
    for a, az in ((ZERO, None), (al, al)):
        for zero in (False, True):
            f, ps = h.run("Realloc", [n1, n2, n, a], align + [(le(n, ZERO), zero), (ge(n1, ONE), True)])
            for p in ps:
                key = "Realloc|%s|%s" % (show(a), zero)
                ns = base(f, p, key)
                old = ns[0][0][1]
                t = add(n1, n2)
                usage(f, p, key, ns[1], n)
                peak(f, p, key, ns[1], [t, n], add(n1, n))
                null = ns[1][0] == NULL
                alive(f, p, key, ns[1], 0 if null else 1)
                if null:
                    ck.require(zero, "R1-block", f, None, key + "|null", "%s: resizing gives nothing" % key, p)
                else:
                    block(f, p, key, ns[1], n, az, None if zero else (old, [[n1], [n]]))
            f, ps = h.run("ReallocNothing", [n1, n, a], align + [(le(n, ZERO), zero)])
            for p in ps:
                key = "ReallocNothing|%s|%s" % (show(a), zero)
                ns = base(f, p, key)
                usage(f, p, key, ns[1], add(n1, n))
                peak(f, p, key, ns[1], [add(n1, n)])
                block(f, p, key, ns[1], n, az)
                alive(f, p, key, ns[1], 2)
    # ---- no memory
    for name, k in (("MallocFails", 2), ("ReallocFails", 2)):
        for a in (ZERO, al):
            h.fail = k
            f, ps = h.run(name, [n1, n, a], align + [(ge(n, ONE), True), (ge(n1, ONE), True)])
            h.fail = None
            for p in ps:
                key = "%s|%s" % (name, show(a))
                ns = base(f, p, key)
                if p.st.ghost.get("asked", 0) < k:      # answered without the system
                    usage(f, p, key, ns[1], n if name == "ReallocFails" else add(n1, n))
                    continue
                ck.require(ns[1][0] == NULL, "R4-fail", f, None, key + "|told", "%s: a block is returned although there is no memory" % key, p)
                usage(f, p, key, ns[1], n1, "R4-fail")
                peak(f, p, key, ns[1], [n1], rule="R4-fail")
                alive(f, p, key, ns[1], 1)
    # ---- two threads
    th = h.th
    for other, on, left in (("OtherMalloc", 20, 20), ("OtherMallocFree", 20, 0), ("OtherMalloc", 1, 1)):
        for name, args, u, least, most in (("ThreadMalloc", [3, 10], 13, 13, 13), ("ThreadFree", [3, 10], 3, 13, 13),
                                           ("ThreadRealloc", [3, 10, 8], 10, 10, 13), ("ThreadRealloc", [3, 10, 0], 10, 10, 13),
                                           ("ThreadRealloc", [10, 3, 8], 3, 10, 13), ("ThreadRealloc", [10, 8, 8], 8, 10, 10)):
            for k in range(1, 20):
                th.at, th.fired, th.other, th.args = k, 0, ck.fn(K + other), [c(on)]
                f, ps = h.run(name, [c(x) for x in args])
                if not th.fired:
                    break
                for p in ps:
                    key = "%s%s|%s%d|%d" % (name, args, other, on, k)
                    ns = base(f, p, key)
                    v = [x for x in ns[-1][1:3]]
                    if any(x[0] != "c" for x in v):
                        raise AnalysisBroken("%s: usage %s" % (key, show(v[0])))
                    ck.require(v[0][1] == u + left, "R5-atomic", f, None, key + "|usage",
                               "%s while another thread is in %s(%d) at access %d: the usage is %d, expected %d" % (name, other, on, k, v[0][1], u + left), p)
                    lo = max(least, u + left, on + min(args[0], u))
                    ck.require(lo <= v[1][1] <= most + on, "R5-atomic", f, None, key + "|peak",
                               "%s while another thread is in %s(%d) at access %d: the peak is %d, at least %d were in use at once" % (name, other, on, k, v[1][1], lo), p)
            th.at = None
    # ---- separate pools
    f, ps = h.run("TwoPools", [n])
    for p in ps:
        ns = base(f, p, "TwoPools")
        usage(f, p, "TwoPools|a", ns[0], n, "R9-pools")
        usage(f, p, "TwoPools|b", ns[1], ZERO, "R9-pools")
        peak(f, p, "TwoPools|b", ns[1], [ZERO], rule="R9-pools")
    f, ps = h.run("OnePool", [])
    for p in ps:
        v = value(p, p.val)
        if v[0] != "c":
            raise AnalysisBroken("the identity of the default pool is not known")
        ck.require(v[1] == 1, "R9-pools", f, None, "OnePool", "two requests for the default pool get different pools", p)


class Buffers(Y.World):
    """two pools that keep account of their blocks"""

    def __init__(self, ck):
        Y.World.__init__(self, ck, K)
        h = self.eng.handlers
        h["paimon::MemoryPool::Malloc"] = self.malloc
        h["paimon::MemoryPool::Free"] = self.free
        h[K + "Look"] = self.look
        h[K + "Same"] = h[K + "Number"] = self.number

    def malloc(self, eng, e, st, fr):
        out = []
        for s, l in _obj_locs(eng, e, st, fr):
            for s2, v in M.h_malloc(eng, e, s, fr):
                s2.ghost[("pool", v[1])] = (self.pool_of(l), s2.events[-1].args[0])
                out.append((s2, v))
        return out

    def pool_of(self, l):
        o = l
        while l[0] not in ("T",):
            if len(l) < 2 or not isinstance(l[1], tuple):
                raise AnalysisBroken("pool %s is not known" % (o,))
            l = l[1]
        return l

    def free(self, eng, e, st, fr):
        out = []
        for s, l in _obj_locs(eng, e, st, fr):
            for s2, vs in eng.evs(e["a"], s, fr):
                p, n = vs[0], vs[1]
                s2.ghost["freed"] = s2.ghost.get("freed", ()) + ((self.pool_of(l), p, n, e.get("l", 0), eng.file),)
                if p[0] == "ptr":
                    if s2.ghost.get(("dead", p[1])) is not None:
                        M.event(eng, s2, "dead", p[1], p[2], 0, e)
                    s2.ghost[("dead", p[1])] = e.get("l", 0)
                out.append((s2, op("void")))
        return out

    def look(self, eng, e, st, fr):
        out = []
        for s, a in eng.lv(e["a"][0], st, fr):
            for s2, b in eng.lv(e["a"][1], s, fr):
                r = []
                for l in (a, b):
                    if l[0] == "ref":
                        l = l[1]
                    n = M.cint(eng, s2, self.size(s2, l), "size")
                    d = self.data(s2, l)
                    r.append((n, d, M.get(eng, s2, d[1], d[2], n, e) if n and d[0] == "ptr" else []))
                s2.ghost["look"] = s2.ghost.get("look", ()) + (tuple(r),)
                out.append((s2, op("void")))
        return out

    def number(self, eng, e, st, fr):
        out = []
        for s, vs in eng.evs(e["a"], st, fr):
            s.ghost["numbers"] = s.ghost.get("numbers", ()) + (vs[0],)
            out.append((s, op("void")))
        return out

    def poolp(self, k):
        return ("addr", ("T", "pool%d" % k, "paimon::MemoryPool"))


def buffers(ck):
    w = Buffers(ck)
    w.mem_rule = "R6-owner"
    bs = [w.bytes("x", k) for k in range(4)]
    ys = [w.bytes("y", k) for k in range(4)]
    P0, P1 = w.poolp(0), w.poolp(1)

    def go(name, args):
        """args: byte lists are strings"""
        st = w.state()
        vs = [w.string(st, a) if isinstance(a, list) else a for a in args]
        f = ck.fn(K + name)
        ps = w.run(name, vs, st)
        for p in ps:
            w.safe(f, p, name, "R6-owner")
        return f, ps

    def owner(f, p, key, frees, leak=0):
        """every block goes back once, to its pool, with its size"""
        g = p.st.ghost
        got = g.get("freed", ())
        for pl, q, n, line, file in got:
            if q[0] != "ptr":
                ck.bad("R6-owner", f, None, key + "|nothing", "%s: %s is given back to a pool" % (key, show(q)), p)
                continue
            if ("pool", q[1]) not in g:
                ck.bad("R6-owner", file, line, key + "|foreign", "%s: memory is given back that no pool gave out" % key, p)
                continue
            own, size = g[("pool", q[1])]
            ck.require(own == pl and q[2] == 0 and teq(p, n, size), "R6-owner", file, line, key + "|back",
                       "%s: a block of %s bytes of %s is given back as %s bytes to %s" % (key, show(size), own[1], show(n), pl[1]), p)
        blocks = [k for k in g if isinstance(k, tuple) and k[0] == "pool"]
        ck.require(len(got) == frees and len(blocks) == frees + leak, "R6-owner", f, None, key + "|count",
                   "%s: %d blocks were taken and %d given back" % (key, len(blocks), len(got)), p)

    def holds(f, p, key, i, want, rule="R7-bytes"):
        n, d, b = p.st.ghost["look"][-1][i]
        if b:
            w.sure(p, b)
        ck.require(n == len(want) and (not want or d[0] == "ptr" and w.same_all(p, b, want)), rule, f, None, key + "|%d" % i,
                   "%s: the buffer has %d bytes %s, expected %s" % (key, n, Y.hexs(b), Y.hexs(want)), p)
        if not want and i == 1:
            ck.require(d == NULL, rule, f, None, key + "|%d|data" % i, "%s: an empty buffer points to %s" % (key, show(d)), p)

    Z = c(0)
    for n in range(4):
        f, ps = go("Sized", [c(n), P0])
        for p in ps:
            z = [M.split(w.eng, p.st, ZERO, "char")[0]] * n
            holds(f, p, "Sized|%d" % n, 0, z)
            owner(f, p, "Sized|%d" % n, 1 if n else 0)
        f, ps = go("Allocate", [c(n), P0])
        for p in ps:
            z = [M.split(w.eng, p.st, ZERO, "char")[0]] * n
            holds(f, p, "Allocate|%d" % n, 0, z)
        for name, leak in (("FromString", 0), ("MoveConstruct", 0), ("MoveSelf", 0), ("MoveBack", 0), ("AllocateString", 1)):
            f, ps = go(name, [bs[n], P0])
            for p in ps:
                key = "%s|%d" % (name, n)
                holds(f, p, key, 0, bs[n], "R6-owner" if name.startswith("Move") else "R7-bytes")
                holds(f, p, key, 1, [], "R6-owner")
                owner(f, p, key, 1 if n and not leak else 0, leak if n else 0)
        for m in range(4):
            f, ps = go("MoveAssign", [bs[n], P0, ys[m], P1])
            for p in ps:
                key = "MoveAssign|%d|%d" % (n, m)
                holds(f, p, key, 0, bs[n], "R6-owner")
                holds(f, p, key, 1, [], "R6-owner")
                owner(f, p, key, (n > 0) + (m > 0))
            f, ps = go("Equal", [bs[n], ys[m], P0])
            for p in ps:
                key = "Equal|%d|%d" % (n, m)
                a, b = p.st.ghost["numbers"]
                truth(w, ck, f, p, key, a, bs[n], ys[m], "==")
                ck.require(value(p, b) == ONE, "R7-bytes", f, None, key + "|self", "%s: a buffer differs from itself" % key, p)
            for name, o in (("Less", "<"), ("Compare", "cmp")):
                f, ps = go(name, [bs[n], ys[m], P0])
                for p in ps:
                    truth(w, ck, f, p, "%s|%d|%d" % (name, n, m), p.st.ghost["numbers"][-1], bs[n], ys[m], o)
            if m >= n:
                f, ps = go("CopyOf", [bs[n], c(m), P0, P1])
                for p in ps:
                    key = "CopyOf|%d|%d" % (n, m)
                    z = [M.split(w.eng, p.st, ZERO, "char")[0]] * (m - n)
                    holds(f, p, key, 0, bs[n] + z)
                    k, d, b = p.st.ghost["look"][-1][1]
                    ck.require(k == n and w.same_all(p, b, bs[n]), "R7-bytes", f, None, key + "|source", "%s: copying changes the source" % key, p)
                    owner(f, p, key, 0, (n > 0) + (m > 0))
        for i in range(n):
            x = w.var("v", "char")
            f, ps = go("Element", [bs[n], c(i), x, P0])
            for p in ps:
                key = "Element|%d|%d" % (n, i)
                got = M.split(w.eng, p.st, p.st.ghost["numbers"][-1], "long")
                ck.require(w.same(p, got[0], bs[n][i]), "R7-bytes", f, None, key, "%s: byte %d is %s" % (key, i, show(got[0])), p)
                holds(f, p, key + "|set", 0, bs[n][:i] + [M.split(w.eng, p.st, x, "char")[0]] + bs[n][i + 1:])
    # ---- the deleter
    for name in ("Release", "ReleaseCopied", "ReleaseMoved", "ReleaseConverted", "ReleaseOtherType"):
        for n in (0, 2):
            f, ps = go(name, [bs[n], P0, P1, c(40)])
            for p in ps:
                key = "%s|%d" % (name, n)
                fr = [(pl[1], "object" if q[0] == "addr" else "bytes", teq(p, k, c(40) if q[0] == "addr" else c(n))) for pl, q, k, _, _ in p.st.ghost.get("freed", ())]
                want = ([("pool0", "bytes", True)] if n else []) + [("pool1", "object", True)]
                ck.require(fr == want, "R8-deleter", f, None, key, "%s: releasing an object gives back %s, expected its bytes and then itself" % (key, fr), p)
    f, ps = go("ReleaseNothing", [P1, c(24)])
    for p in ps:
        ck.require(not p.st.ghost.get("freed"), "R8-deleter", f, None, "ReleaseNothing", "releasing nothing gives memory back", p)


def truth(w, ck, f, p, key, v, xs, ys, o):
    """the answer v under the path's knowledge of the bytes"""
    v = value(p, v)
    if v[0] != "c":
        raise AnalysisBroken("%s answers %s" % (key, show(v)))
    # first difference the path knows
    rel = None
    for x, y in zip(xs, ys):
        e = w.equal(p, x, y)
        if e is True:
            continue
        if e is None:
            rel = "?"
        else:
            lt = p.st.facts.truth(w.eng.compare(p.st, "<", x, y, "unsigned char"))
            rel = "!" if lt is None else "<" if lt else ">"
        break
    if rel is None:
        rel = "<" if len(xs) < len(ys) else ">" if len(xs) > len(ys) else "="
    if o == "==":
        ok = v == ONE and rel == "=" or v == ZERO and (rel in "<>!" or len(xs) != len(ys))
    elif o == "<":
        ok = v == ONE and rel == "<" or v == ZERO and rel in ">="
    else:
        ok = v[1] < 0 and rel == "<" or v[1] > 0 and rel == ">" or v[1] == 0 and rel == "="
    ck.require(ok, "R7-bytes", f, None, key, "%s: answers %s when the first is %s" % (key, show(v), {"=": "equal", "<": "less", ">": "greater", "!": "different", "?": "not compared"}[rel]), p)


def check(ck):
    pools(ck)
    buffers(ck)
