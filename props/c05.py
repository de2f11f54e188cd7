"""Serialized forms: documented bytes, read back exactly, malformed input is an error.

Clients write and read blob descriptors, bit-sliced indexes and global index results.  Numbers and text bytes are unknown; a bitmap is
stored as an image of three bytes that stand for its set, so a slip in order, width or length shows as other bytes."""
import bitmap as BM
import mem as M
from bytespec import World, hexs
from dom import ONE, ZERO, c, ge, mk_ge0, op, sub
from rules import AnalysisBroken, show
from specs import cells_of, value

PREFIXES = ["common/memory/", "common/data/blob_descriptor", "common/file_index/bsi/bit_slice_index_roaring", "common/utils/roaring_bitmap", "common/global_index/",
            "common/io/"]
CLIENTS = ["c05"]
MIN_OBLIGATIONS = 200
RULES = {
    "R1-layout": "the stored bytes are the documented ones",
    "R2-read": "reading returns exactly what the bytes say",
    "R3-refuse": "truncated or malformed bytes and values that cannot be stored are errors",
    "R4-memory": "no byte outside a buffer is accessed",
}
RULE_MEM = "R4-memory"


class W(World):
    mem_rule = RULE_MEM

    def num(self, st, v, t, big=True):
        bs = M.split(self.eng, st, v, t)
        return bs[::-1] if big else bs

    def ask(self, f, name, args, st):
        for p in self.run(name, args + [self.pool(st)], st):
            self.safe(f, p, name, RULE_MEM)
            yield p

    def stored(self, f, name, args, st, want, text):
        for p in self.ask(f, name, args, st):
            if not p.ok:
                self.ck.require(False, "R1-layout", f, None, name + "|error", "%s is refused" % text, p)
                continue
            v = value(p, p.okval())
            got = self.sure(p, self.content(p.st, v[1])) if v[0] == "addr" else self.out_bytes(p, v)
            w = want(p) if callable(want) else want
            self.ck.require(self.same_all(p, got, w), "R1-layout", f, None, name, "%s is stored as [%s] instead of [%s]" % (text, hexs(got), hexs(w)), p)

    def refused(self, f, name, args, st, text):
        for p in self.ask(f, name, args, st):
            self.ck.require(not p.ok, "R3-refuse", f, None, name, "%s is accepted" % text, p)

    def at(self, st, bs):
        return [self.block(st, bs), c(len(bs))]


def check(ck):
    w = W(ck, "paimon::client05::", handlers=BM.HANDLERS)
    w.eng.exact_throw = True
    blob(ck, w)
    bsi(ck, w)
    results(ck, w)


def le(w, st, v, t):
    return w.num(st, v, t, False)


def blob(ck, w):
    B = "paimon::BlobDescriptor::"
    f, g, h = ck.fn(B + "Serialize"), ck.fn(B + "Deserialize"), ck.fn(B + "Create")
    off, ln = w.var("offset", "long"), w.var("length", "long")
    for n in (0, 1, 2, 3, 300, 70000):
        uri = w.bytes("u", n)

        def start(lo=0, hi=None):
            st = w.state()
            st.facts.assume(ge(off, ZERO), True)
            st.facts.assume(ge(ln, c(-1)), True)
            return st
        st = start()
        img = [ONE] + le(w, st, c(n), "int") + uri + le(w, st, off, "long") + le(w, st, ln, "long")
        w.stored(f, "BlobWrite", [w.string(st, uri), off, ln], st, img, "a descriptor with %d bytes of uri" % n)
        for extra in ([], [c(7)]):
            for nm, want in (("BlobUri", uri), ("BlobOffset", off), ("BlobLength", ln)):
                st = start()
                for p in w.ask(g, nm, w.at(st, img + extra), st):
                    if not p.ok:
                        ck.require(False, "R2-read", g, None, nm + "|error", "a valid descriptor is refused", p)
                    elif nm == "BlobUri":
                        got = w.out_bytes(p, p.okval())
                        ck.require(w.same_all(p, got, want), "R2-read", g, None, nm, "the uri read is [%s]" % hexs(got), p)
                    else:
                        v = value(p, p.okval())
                        ck.require(w.same_value(p, v, want, "long"), "R2-read", g, None, nm, "the number read is %s" % show(v)[:100], p)
        if n > 1000:
            continue
        for cut in range(len(img)):
            st = start()
            w.refused(g, "BlobUri", w.at(st, img[:cut]), st, "a descriptor of %d bytes cut to %d" % (len(img), cut))
        for ver in (0, 2, 3, 127, 255, 128):
            st = start()
            w.refused(g, "BlobUri", w.at(st, [c(ver)] + img[1:]), st, "version byte %d" % ver)
        for bad in (-1, -5, n + 1 if n + 1 > 16 else 17 + n, 3000, -0x80000000):
            st = start()
            w.refused(g, "BlobUri", w.at(st, img[:1] + le(w, st, c(bad), "int") + img[5:]), st, "uri length %d of %d" % (bad, n))
    for o, l in ((-1, 0), (-5, 3), (0, -2), (1, -100), (-(1 << 63), 0), (0, -(1 << 63)), (-1, -1)):
        st = w.state()
        w.refused(h, "BlobWrite", [w.string(st, []), c(o), c(l)], st, "offset %d, length %d" % (o, l))
        st = w.state()
        w.refused(g, "BlobUri", w.at(st, [ONE] + [ZERO] * 4 + le(w, st, c(o), "long") + le(w, st, c(l), "long")), st, "stored offset %d, length %d" % (o, l))


def image(w, st, xs):
    return BM.image(w.eng, st, op("Sl", *[c(x) for x in xs]))


def bsi(ck, w):
    C = "paimon::BitSliceIndexRoaringBitmap::"
    f, g = ck.fn(C + "Appender::Serialize"), ck.fn(C + "Create", 1)
    for lo, hi, values in ((5, 9, [5, 9, 7]), (0, 1, [1, 0]), (0, 0, [0]), (3, 3, []), (100, 1000000, [100, 1000000, 4242]), (0, (1 << 40), [1 << 40, 3])):
        st = w.state()
        n = (hi - lo).bit_length()
        img = [ONE] + w.num(st, c(lo), "long") + w.num(st, c(hi), "long") + image(w, st, range(len(values))) + w.num(st, c(n), "int")
        for i in range(n):
            img += image(w, st, [r for r, v in enumerate(values) if (v - lo) >> i & 1])
        what = "an index of %s over [%d, %d]" % (values, lo, hi)
        vec = lambda st, vs=values: w.vec(st, [c(v) for v in vs], "long")
        w.stored(f, "BsiWrite", [c(lo), c(hi), vec(st)], st, img, what)

        def read(data, a=lo, b=hi, vs=values, n=None):
            st = w.state()
            return w.ask(g, "BsiRead", [c(a), c(b), vec(st, vs), w.block(st, data), c(len(data))], st)
        for data in (img, img + [c(9)]):
            for p in read(data):
                v = value(p, p.okval()) if p.ok else None
                ck.require(v == ONE, "R2-read", g, None, "BsiRead", "%s is not the index that was stored" % what if p.ok else "%s is refused" % what, p)
        # another index is not the one that was stored
        for a, b, vs in ((lo, hi, values[:-1]), (lo, hi + 1, values), (max(0, lo - 1), hi, values)):
            if (a, b, vs) == (lo, hi, values):
                continue
            for p in read(img, a, b, vs):
                v = value(p, p.okval()) if p.ok else None
                ck.require(v != ONE, "R2-read", g, None, "BsiRead|other", "%s is read as the index of %s over [%d, %d]" % (what, vs, a, b), p)
        cuts = range(len(img)) if len(img) < 60 else list(range(30)) + [len(img) - 1, len(img) - 4]
        for cut in cuts:
            for p in read(img[:cut]):
                ck.require(not p.ok, "R3-refuse", g, None, "BsiRead|cut", "%s cut to %d of %d bytes is accepted" % (what, cut, len(img)), p)
        for i in [17] + list(range(24, min(len(img), 40), BM.IMAGE)):
            for p in read(img[:i] + [ZERO] * BM.IMAGE + img[i + BM.IMAGE:]):
                ck.require(not p.ok, "R3-refuse", g, None, "BsiRead|bitmap", "bytes that are no bitmap are accepted at byte %d" % i, p)
        for ver in (2, 3, 127):
            for p in read([c(ver)] + img[1:]):
                ck.require(not p.ok, "R3-refuse", g, None, "BsiRead|version", "version %d is accepted" % ver, p)
        for bad in (-1, -7, n + 1, 3000, -0x80000000):
            for p in read(img[:20] + w.num(w.state(), c(bad), "int") + img[24:]):
                ck.require(not p.ok, "R3-refuse", g, None, "BsiRead|slices", "%d slices of %d are accepted" % (bad, n), p)


def results(ck, w):
    G = "paimon::GlobalIndexResult::"
    f, g = ck.fn(G + "Serialize"), ck.fn(G + "Deserialize")
    for ids, scored in (([], False), ([3], False), ([1, 2, 900], False), ([7], True), ([2, 5], True), ([1, 4, 6], True)):
        scores = [w.var("score%d" % i, "float") for i in range(len(ids))] if scored else []

        def img(st, n=len(ids), k=None, ver=1, m=None):
            im = image(w, st, ids)
            r = w.num(st, c(ver), "int") + w.num(st, c(len(im) if m is None else m), "int") + im + w.num(st, c(len(scores) if k is None else k), "int")
            for x in scores:
                r += w.num(st, x, "float")
            return r
        what = "a result of rows %s%s" % (ids, " with scores" if scored else "")
        st = w.state()
        iv = w.vec(st, [c(i) for i in ids], "long")
        if scored:
            w.stored(f, "ScoredWrite", [iv, w.vec(st, scores, "float")], st, img(st), what)
        else:
            w.stored(f, "ResWrite", [iv], st, img(st), what)
        for extra in ([], [c(1)]):
            st = w.state()
            for p in w.ask(g, "ResRead", w.at(st, img(st) + extra), st):
                got = cells_of(p, p.okval()) if p.ok else None
                got = None if got is None else [w.eng.read(p.st, x[1], "long") if x[0] == "ref" else x for x in got]
                ck.require(got == [c(i) for i in ids], "R2-read", g, None, "ResRead", "%s: %s" % (what, "rows %s are read" % [show(x) for x in got] if got is not None else "refused"), p)
            st = w.state()
            for p in w.ask(g, "ResScores", w.at(st, img(st) + extra), st):
                got = cells_of(p, p.okval()) if p.ok else None
                got = None if got is None else [w.eng.read(p.st, x[1], "float") if x[0] == "ref" else x for x in got]
                ck.require(got is not None and len(got) == len(scores) and all(w.same_value(p, x, y, "float") for x, y in zip(got, scores)), "R2-read", g, None, "ResScores",
                           "%s: %s" % (what, "scores %s are read" % [show(x) for x in got] if got is not None else "refused"), p)
        full = img(w.state())
        for cut in range(len(full)):
            st = w.state()
            w.refused(g, "ResRead", w.at(st, full[:cut]), st, "%s cut to %d of %d bytes" % (what, cut, len(full)))
        st = w.state()
        w.refused(g, "ResRead", w.at(st, full[:8] + [ZERO] * BM.IMAGE + full[8 + BM.IMAGE:]), st, "bytes that are no bitmap")
        for ver in (0, 2, -1, 1 << 24, 256):
            st = w.state()
            w.refused(g, "ResRead", w.at(st, img(st, ver=ver)), st, "version %d" % ver)
        for m in (-1, -9, 0, 2, 100, 3000, -0x80000000):
            st = w.state()
            w.refused(g, "ResRead", w.at(st, img(st, m=m)), st, "bitmap length %d" % m)
        for k in (-1, len(ids) + 1, len(ids) - 1 if len(ids) > 1 else 5, 3000, -0x80000000):
            st = w.state()
            w.refused(g, "ResRead", w.at(st, img(st, k=k)), st, "%d scores for %d rows" % (k, len(ids)))
    st = w.state()
    w.refused(f, "FailWrite", [], st, "a result that cannot be computed")
