"""Helpers for properties over byte memory: a world with a pool, byte buffers of unknown or given content, and comparison of byte lists."""
import bits as B
import mem as M
from dom import NULL, ONE, ZERO, c, op
from rules import AnalysisBroken, show
from specs import cells_of, constref, need, vec

BYTES = "paimon::Bytes"
BAD = {"oob": "bytes outside a buffer are accessed", "dead": "released memory is accessed", "overlap": "memcpy between overlapping regions", "outofrange": "an element outside a container is accessed"}


class World:
    def __init__(self, ck, ns, **kw):
        self.ck = ck
        self.ns = ns
        kw.setdefault("max_depth", 60)
        kw.setdefault("max_paths", 60000)
        kw.setdefault("unroll", 80)
        self.eng = M.enable(ck.engine(seq=True, bits=True, **kw))
        self.eng.recursion = 4
        self.eng.handlers["paimon::GetDefaultPool"] = lambda eng, e, st, fr: [(st, ("addr", ("T", "pool", "paimon::MemoryPool")))]
        self.n = 0

    def name(self, p="x"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def state(self):
        return self.eng.new_state()

    def pool(self, st, ptr=False):
        a = ("addr", ("T", "pool", "paimon::MemoryPool"))
        return a if ptr else constref(self.eng, st, a, self.name("pool"))

    def var(self, name, t):
        # a name stands for one type only
        return self.eng.typed(("v", name if t == "unsigned char" else "%s:%s" % (name, t)), t)

    def byte(self, name):
        return self.var(name, "unsigned char")

    def bytes(self, name, n):
        return [self.byte("%s%d" % (name, i)) for i in range(n)]

    def block(self, st, bs):
        """pointer to a block with the given bytes"""
        return ("ptr", M.block_of(self.eng, st, bs), 0)

    def string(self, st, bs):
        """std::string argument with the given bytes"""
        import seq
        l = ("T", self.name("str"))
        st.store[l] = seq.mkstr([M.join(self.eng, st, [b], "char") for b in bs])
        return ("ref", l)

    def cvec(self, st, bs, t="char"):
        return vec(self.eng, st, ("T", self.name("vec")), [M.join(self.eng, st, [b], t) for b in bs], t)

    def vec(self, st, xs, t):
        return vec(self.eng, st, ("T", self.name("vec")), xs, t)

    def obj_bytes(self, st, bs):
        """a Bytes object with the given content -> location"""
        l = ("T", self.name("bytes"), BYTES)
        r = self.run0("paimon::Bytes::Bytes", st, l, [c(len(bs)), self.pool(st, True)])
        d = self.data(r, l)
        if bs:
            M.put(self.eng, r, d[1], d[2], bs)
        return r, l

    def run0(self, fn, st, this, args):
        f = [g for g in self.ck.prog.fns(fn) if len(g.get("params") or []) == len(args) and g["params"][0]["t"].startswith("unsigned")]
        if len(f) != 1:
            raise AnalysisBroken("%s: %d candidates" % (fn, len(f)))
        ps = self.ck.run(f[0], self.eng, this=this, args=args, st=st)
        if len(ps) != 1:
            raise AnalysisBroken("%s has %d paths" % (fn, len(ps)))
        return ps[0].st

    def data(self, st, l):
        g = [x for x in self.ck.prog.fns(BYTES + "::data")]
        ps = self.ck.run(g[0], self.eng, this=l, args=[], st=st.copy())
        return ps[0].val

    def size(self, st, l):
        g = [x for x in self.ck.prog.fns(BYTES + "::size")]
        return self.ck.run(g[0], self.eng, this=l, args=[], st=st.copy())[0].val

    def content(self, st, l):
        """bytes of a Bytes object"""
        n = M.cint(self.eng, st, self.size(st, l), "size")
        if n == 0:
            return []
        d = self.data(st, l)
        return M.get(self.eng, st, d[1], d[2], n)

    def shared(self, st, l):
        return constref(self.eng, st, ("addr", l), self.name("sp"))

    mem_rule = None

    def run(self, name, args, st):
        self.eng.steps = 0
        f = self.ck.fn(self.ns + name)
        try:
            return self.ck.run(f, self.eng, args=args, st=st)
        except AnalysisBroken as x:
            # a path that left its buffers before it became unpredictable
            s = getattr(x.__context__, "state", None)
            bad = [e for e in s.events if e.kind in BAD] if s is not None and self.mem_rule else []
            if not bad:
                raise
            self.ck.require(False, self.mem_rule, f, None, name + "|" + bad[0].kind, "%s (line %s of %s)" % (BAD[bad[0].kind], bad[0].line, bad[0].file))
            return []

    def one(self, name, args, st):
        ps = self.run(name, args, st)
        if len(ps) != 1:
            raise AnalysisBroken("%s has %d paths" % (name, len(ps)))
        return ps[0]

    def out_bytes(self, p, v, t="char"):
        """byte list of a vector<char> or string result"""
        import seq
        if v[0] == "ref":
            w = p.st.store.get(v[1])
            v = w if w is not None and seq.chars(w) is not None else v
        cs = seq.chars(v)
        if cs is not None:
            return self.sure(p, [M.split(self.eng, p.st, x, "char")[0] for x in cs])
        cs = cells_of(p, v)
        if cs is None:
            raise AnalysisBroken("bytes %s not understood" % show(v)[:200])
        return self.sure(p, [M.split(self.eng, p.st, self.eng.read(p.st, x[1], t) if x[0] == "ref" else x, t)[0] for x in cs])

    def sure(self, p, bs):
        """stop when a byte is not understood, unless an access outside a buffer explains it"""
        if not p.events(*BAD):
            need(bs, "bytes")
        return bs

    def equal(self, p, x, y):
        """does the path know that two bytes are equal or different, read as unsigned or as char"""
        for t in (None, "char"):
            a, b = (x, y) if t is None else (self.eng.cast(p.st, x, t, "unsigned char"), self.eng.cast(p.st, y, t, "unsigned char"))
            r = p.st.facts.truth(self.eng.compare(p.st, "==", a, b, t or "unsigned char"))
            if r is not None:
                return r
        return None

    def same(self, p, a, b):
        """two bytes equal under the path"""
        return a == b or B.same(self.eng, p.st.facts, a, b, "unsigned char")

    def same_all(self, p, xs, ys):
        return len(xs) == len(ys) and all(self.same(p, x, y) for x, y in zip(xs, ys))

    def same_value(self, p, a, b, t):
        if a == b:
            return True
        x, y = M.split(self.eng, p.st, a, t), M.split(self.eng, p.st, b, t)
        return self.same_all(p, x, y)

    def safe(self, f, p, key, rule):
        bad = p.events(*BAD)
        if bad:
            e = bad[0]
            self.ck.require(False, rule, f, e.line, key + "|" + e.kind, BAD[e.kind] + " (line %s of %s)" % (e.line, e.file), p)
        else:
            self.ck.ok(rule)

    def bytes_of(self, st, v, t):
        return M.split(self.eng, st, v, t)


def hexs(bs):
    return " ".join(show(b) for b in bs)[:300]


class Segs:
    """segments of equal size: reference to the vector and the memory block of each"""

    def __init__(self, ref, size, blocks):
        self.ref, self.size, self.blocks = ref, size, blocks


class SegWorld(World):
    """a world with segmented memory; the client file provides Make(size, count, pool) and Where(segments, i)"""

    def __init__(self, ck, ns, mem_rule, **kw):
        World.__init__(self, ck, ns, **kw)
        self.mem_rule = mem_rule
        self.made = {}

    def segs(self, *parts):
        """parts (segment size, bytes) -> state, handles"""
        from specs import value
        key = tuple((size, len(bs)) for size, bs in parts)
        if key not in self.made:
            st = self.state()
            hs = []
            for size, n in key:
                count = -(-n // size) if size else 1
                p = self.one("Make", [c(size), c(count), self.pool(st)], st)
                st = p.st
                ref = constref(self.eng, st, p.val, self.name("segs"))
                blocks = []
                for i in range(count):
                    q = self.one("Where", [ref, c(i)], st.copy())
                    if q.val[0] != "ptr":
                        raise AnalysisBroken("memory of a segment not found: %s" % show(q.val))
                    blocks.append((q.val[1], q.val[2]))
                hs.append(Segs(ref, size, blocks))
            st.events = ()
            self.made[key] = (st, hs)
        st, hs = self.made[key]
        st = st.copy()
        for h, (size, bs) in zip(hs, parts):
            bs = list(bs) + [ZERO] * (len(h.blocks) * size - len(bs))
            for i, (b, o) in enumerate(h.blocks):
                if size:
                    M.put(self.eng, st, b, o, bs[i * size:(i + 1) * size])
        return st, hs

    def all(self, p, h):
        return [x for b, o in h.blocks for x in (M.get(self.eng, p.st, b, o, h.size) if h.size else [])]

    def answers(self, f, name, args, st):
        from specs import value
        for p in self.run(name, args + [self.pool(st)], st):
            self.safe(f, p, name, self.mem_rule)
            v = value(p, p.val)
            yield p, v

    def result(self, f, name, args, want, rule, text, st):
        """the operation returns the bytes (array or string)"""
        import seq
        from specs import loc_of
        for p in self.run(name, args + [self.pool(st)], st):
            self.safe(f, p, name, self.mem_rule)
            v = p.val
            if v[0] == "addr":
                got = self.sure(p, self.content(p.st, v[1]))
            else:
                got = self.out_bytes(p, v)
            self.ck.require(self.same_all(p, got, want), rule, f, None, name, "%s: [%s] instead of [%s]" % (text, hexs(got), hexs(want)), p)

    def effect(self, f, name, args, wants, rule, text, st):
        """the operation leaves these bytes in the segments"""
        for p in self.run(name, args + [self.pool(st)], st):
            self.safe(f, p, name, self.mem_rule)
            for h, want in wants:
                got = self.sure(p, self.all(p, h))
                self.ck.require(self.same_all(p, got, want), rule, f, None, name, "%s: [%s] instead of [%s]" % (text, hexs(got), hexs(want)), p)

    def flag(self, f, name, args, want, rule, text, st):
        for p, v in self.answers(f, name, args, st):
            if v not in (ZERO, ONE):
                t = p.st.facts.truth(v)
                if t is None:
                    self.depends(f, name, v, rule, text, p)
                    continue
                v = ONE if t else ZERO
            self.ck.require((v == ONE) is want, rule, f, None, name, "%s: the answer is %s" % (text, "yes" if v == ONE else "no"), p)

    def depends(self, f, name, v, rule, text, p):
        """the cases fix the answer, so an understood answer that still varies is wrong"""
        self.sure(p, [v])
        self.ck.require(False, rule, f, None, name + "|varies", "%s: the answer %s depends on bytes that do not matter" % (text, show(v)[:200]), p)

    def number(self, f, name, args, want, rule, text, st):
        for p, v in self.answers(f, name, args, st):
            if v[0] != "c":
                self.depends(f, name, v, rule, text, p)
                continue
            self.ck.require(v == c(want), rule, f, None, name, "%s: the answer is %s instead of %s" % (text, show(v), want), p)

    def sign(self, f, name, args, want, rule, text, st):
        for p, v in self.answers(f, name, args, st):
            if v[0] != "c":
                self.depends(f, name, v, rule, text, p)
                continue
            got = (v[1] > 0) - (v[1] < 0)
            self.ck.require(got == want, rule, f, None, name, "%s compare as %d instead of %d" % (text, got, want), p)
