"""Containers: insertion-ordered map, thread-safe queue, concurrent map.

A container with n (0..3) elements whose keys and values are unknowns is built through
the public insert operation; each operation is then interpreted with an
unknown key, and on every path the observers must report what the
reference model (a Python list of pairs) reports under the path's key equalities."""
import seq
from absint import _obj_locs
from dom import NULL, ONE, ZERO, c, mk_eq0, op, sub
from rules import AnalysisBroken, show
from specs import cells_of, constref, loc_of

PREFIXES = []
MIN_OBLIGATIONS = 300
RULES = {
    "R1-order": "the insertion-ordered map holds each key once, in order of first insertion, with its latest assigned value",
    "R2-find": "lookup finds exactly the present keys and designates their entry",
    "R3-copy": "a copy has the same entries and is independent of its source",
    "R4-equal": "equality is equality of the entries in order",
    "R5-fifo": "the queue delivers each pushed element once, in order; an empty queue delivers nothing",
    "R6-conc": "the concurrent map returns the latest inserted value of a key until it is erased",
}
M = "paimon::LinkedHashMap"
Q = "paimon::ThreadsafeQueue"
C = "paimon::ConcurrentHashMap"


def same(p, a, b):
    if a == b:
        return True
    return p.st.facts.truth(mk_eq0(sub(a, b)))


def keyref(eng, st, v, name):
    return constref(eng, st, v, name)


class Map:
    def __init__(self, ck, n):
        self.ck = ck
        self.eng = ck.engine(seq=True, max_depth=16)
        self.eng.join = False
        self.st = self.eng.new_state()
        self.m = ("T", "obj:map")
        self.eng.default_fields(self.st, self.m, map_type(ck), None)
        self.keys, self.vals = [], []
        ins = ck.fn(M + "::insert", 2)
        for i in range(n):
            k, v = self.num("k%d" % i), self.num("v%d" % i)
            for x in self.keys:
                self.st.facts.assume(mk_eq0(sub(x, k)), False)
            ps = ck.run(ins, self.eng, this=self.m, args=[keyref(self.eng, self.st, k, "key%d" % i), keyref(self.eng, self.st, v, "val%d" % i)], st=self.st)
            if len(ps) != 1:
                raise AnalysisBroken("inserting a new key has %d paths" % len(ps))
            self.st = ps[0].st
            self.keys.append(k)
            self.vals.append(v)

    def num(self, name):
        return self.eng.typed(("v", name), "long")

    def run(self, name, n, *args):
        f = self.ck.fn(M + "::" + name, n)
        return f, self.ck.run(f, self.eng, this=self.m, args=list(args), st=self.st.copy())


def map_type(ck):
    for r in ck.prog.records:
        if r.startswith(M + "<"):
            return r
    raise AnalysisBroken("no record for " + M)


def entry(p, v):
    """(key, value) an iterator designates; None for end; False when not understood"""
    if v is not None and v[0] == "ref":
        v = p.eng.read(p.st, v[1], None)
    if not seq.is_it(v):
        return False
    if v[3] == seq.END:
        return None
    cs, i = seq.it_index(p.eng, p.st, v)
    if i is None:
        return ("dangling",)
    cell = v[3][1]
    return (p.eng.read(p.st, ("F", cell, "first"), "long"), p.eng.read(p.st, ("F", cell, "second"), "long"))


def has_bad(v):
    """the term dereferences the end of a container"""
    return isinstance(v, tuple) and (len(v) > 1 and v[0] == "op" and isinstance(v[1], str) and v[1].startswith("bad") or any(has_bad(x) for x in v))


def unclear(ck, f, p, v, what):
    if has_bad(v):
        ck.oblig("R2-find")
        ck.bad("R2-find", f, None, f["fn"] + "|bad", "%s uses an entry that does not exist" % what, p)
        return True
    raise AnalysisBroken("%s: result not understood: %s" % (what, show(v)))


def sub_run(ck, p, f, this, args=()):
    """run an observer in the state of a path"""
    st = p.st.copy()
    return ck.run(f, p.eng, this=this, args=list(args), st=st)


def verify(ck, f, p, this, model, what, rule="R1-order"):
    """observers of the map at `this` against the list of pairs"""
    kv = ck.fn(M + "::key_vec", 0)
    key = "%s|%s" % (f["fn"], what.split(" ")[0])
    for q in sub_run(ck, p, kv, this):
        cs = cells_of(q, q.val)
        if cs is None:
            raise AnalysisBroken("key_vec result not understood: " + show(q.val))
        got = [q.eng.read(q.st, x[1], "long") if x[0] == "ref" else x for x in cs]
        ok = len(got) == len(model) and all(same(q, a, b[0]) for a, b in zip(got, model))
        ck.require(ok, rule, f, None, key + "|keys", "after %s the keys are [%s] instead of [%s]" % (
            what, ", ".join(map(show, got)), ", ".join(show(b[0]) for b in model)), p)
    for name, want in (("size", c(len(model))), ("empty", c(not model))):
        for q in sub_run(ck, p, ck.fn(M + "::" + name, 0), this):
            ck.require(same(q, q.val, want), rule, f, None, key + "|" + name, "after %s %s() is %s" % (what, name, show(q.val)), p)
    for q in sub_run(ck, p, ck.fn(M + "::key_set", 0), this):
        cs = cells_of(q, q.val)
        got = None if cs is None else [q.eng.read(q.st, x[1], "long") if x[0] == "ref" else x for x in cs]
        if got is None:
            raise AnalysisBroken("key_set result not understood: " + show(q.val))
        ck.require(len(got) == len(model) and all(any(same(q, a, b[0]) for a in got) for b in model), rule, f, None, key + "|key_set",
                   "after %s key_set() is {%s}" % (what, ", ".join(map(show, got))), p)
    # iteration
    b, e = sub_run(ck, p, ck.fn(M + "::begin", 0), this), sub_run(ck, p, ck.fn(M + "::end", 0), this)
    for q in b:
        it = q.val
        for i in range(len(model)):
            x = entry(q, it)
            if x is False:
                raise AnalysisBroken("iterator not understood: " + show(it))
            ck.require(x not in (None, ("dangling",)) and same(q, x[0], model[i][0]) and same(q, x[1], model[i][1]), rule, f, None, key + "|iter",
                       "after %s entry %d is %s instead of (%s, %s)" % (what, i, x and tuple(map(show, x)) if x != ("dangling",) else x, show(model[i][0]), show(model[i][1])), p)
            if x is None or x == ("dangling",):
                break
            it = seq.it_move(q.eng, q.st, it, 1)
        else:
            ck.require(entry(q, it) is None and all(entry(r, r.val) is None for r in e), rule, f, None, key + "|end", "after %s iteration does not end after %d entries" % (what, len(model)), p)
    # lookups of the present keys
    fd = ck.fn(M + "::find", 1)
    for k, v in model:
        st = p.st.copy()
        for q in ck.run(fd, p.eng, this=this, args=[constref(p.eng, st, k, "lookup")], st=st):
            x = entry(q, q.val)
            if x is False and unclear(ck, f, p, q.val, "lookup after " + what):
                continue
            ok = x not in (None, ("dangling",)) and same(q, x[0], k) and same(q, x[1], v) and owner(q, q.val, this)
            ck.require(ok, "R2-find", f, None, key + "|find", "after %s looking up %s gives %s instead of %s" % (
                what, show(k), "no entry" if x is None else "an entry of another or no map" if not ok and x and x[-1] == v or x == ("dangling",) else tuple(map(show, x)), show(v)), p)


def owner(q, v, this):
    """the iterator belongs to a list inside the object"""
    if v[0] == "ref":
        v = q.eng.read(q.st, v[1], None)
    return q.eng._root(v[2][1]) == this


def hit(p, keys, k):
    """index of the key equal to k on this path; None when none; raises when undecided"""
    for i, x in enumerate(keys):
        t = same(p, x, k)
        if t is None:
            # an operation that never asked: both cases are possible
            return "?"
        if t:
            return i
    return None


def resolve(p, keys, k):
    """refine the path until every equality of k is decided"""
    out, todo = [], [p]
    while todo:
        q = todo.pop()
        i = None
        for x in keys:
            if same(q, x, k) is None:
                i = x
                break
        if i is None:
            out.append(q)
            continue
        for tv in (True, False):
            st = q.st.copy()
            if st.facts.assume(mk_eq0(sub(i, k)), tv) is not False:
                from rules import Path
                todo.append(Path(q.eng, q.kind, st, q.val))
    return out


def ops(ck, n):
    for name in ("insert", "insert_or_assign", "erase", "operator[]", "find"):
        w = Map(ck, n)
        k, v = w.num("k"), w.num("v")
        kr, vr = keyref(w.eng, w.st, k, "key"), keyref(w.eng, w.st, v, "val")
        args = [kr] if name in ("erase", "operator[]", "find") else [kr, vr]
        f, ps = w.run(name, len(args), *args)
        for p0 in ps:
            for p in resolve(p0, w.keys, k):
                i = hit(p, w.keys, k)
                model = list(zip(w.keys, w.vals))
                what = "%s of a %s key into %d entries" % (name, "new" if i is None else "present (#%d)" % i, n)
                key = "%s|%d" % (f["fn"], n)
                if name == "insert":
                    if i is None:
                        model.append((k, v))
                    ret = model[-1] if i is None else model[i]
                elif name == "insert_or_assign":
                    if i is None:
                        model.append((k, v))
                    else:
                        model[i] = (model[i][0], v)
                    ret = model[-1] if i is None else model[i]
                elif name == "erase":
                    ret = None
                    if i is not None:
                        ret = model[i + 1] if i + 1 < n else None
                        del model[i]
                elif name == "find":
                    ret = None if i is None else model[i]
                else:
                    if i is None:
                        model.append((k, ZERO))
                    ret = model[-1] if i is None else model[i]
                if name == "operator[]":
                    # the returned reference designates the entry: writing through it changes the map
                    got = p.val
                    x = p.eng.read(p.st, got[1], "long") if got[0] == "ref" else got
                    ck.require(same(p, x, ret[1]), "R2-find", f, None, key + "|ref", "after %s the reference reads %s" % (what, show(x)), p)
                    if got[0] == "ref":
                        j = len(model) - 1 if i is None else i
                        st = p.st.copy()
                        st.store[got[1]] = w.num("written")
                        from rules import Path
                        verify(ck, f, Path(p.eng, p.kind, st, p.val), w.m, model[:j] + [(model[j][0], w.num("written"))] + model[j + 1:], what + " and a write through it")
                else:
                    x = entry(p, p.val)
                    if x is False and unclear(ck, f, p, p.val, what):
                        continue
                    ok = x is None if ret is None else x not in (None, ("dangling",)) and same(p, x[0], ret[0]) and same(p, x[1], ret[1])
                    ck.require(ok, "R2-find", f, None, key + "|ret", "%s returns %s" % (what, "end" if x is None else [show(y) if not isinstance(y, str) else y for y in x]), p)
                verify(ck, f, p, w.m, model, what)
                if not any(same(p, k, x[0]) for x in model):
                    st = p.st.copy()
                    fd = ck.fn(M + "::find", 1)
                    for q in ck.run(fd, p.eng, this=w.m, args=[constref(p.eng, st, k, "lookup")], st=st):
                        x = entry(q, q.val)
                        ck.require(x is None, "R2-find", f, None, key + "|gone", "after %s the key is still found" % what, p)
                    st = p.st.copy()
                    ins = ck.fn(M + "::insert", 2)
                    nv = w.num("again")
                    for q in ck.run(ins, p.eng, this=w.m, args=[constref(p.eng, st, k, "lookup"), constref(p.eng, st, nv, "nv")], st=st):
                        verify(ck, f, q, w.m, model + [(k, nv)], what + " and a new insert of the key")


def own_key(ck, n):
    """erase by a reference to the key inside the map"""
    er, fd = ck.fn(M + "::erase", 1), ck.fn(M + "::find", 1)
    for i in range(n):
        w = Map(ck, n)
        b = sub_run(ck, type("P", (), {"st": w.st, "eng": w.eng}), ck.fn(M + "::begin", 0), w.m)[0]
        it = seq.it_move(w.eng, w.st, b.val, i)
        if not seq.is_it(it):
            raise AnalysisBroken("iteration not understood")
        ref = ("ref", ("F", it[3][1], "first"))
        model = list(zip(w.keys, w.vals))
        del model[i]
        for p in ck.run(er, w.eng, this=w.m, args=[ref], st=w.st.copy()):
            verify(ck, er, p, w.m, model, "erase-by-own-key of entry #%d of %d" % (i, n))
            st = p.st.copy()
            for q in ck.run(fd, w.eng, this=w.m, args=[constref(w.eng, st, w.keys[i], "lookup")], st=st):
                ck.require(entry(q, q.val) is None, "R2-find", er, None, er["fn"] + "|own", "an entry erased by a reference to its own key is still found", p)


def copies(ck, n):
    for how in ("copy", "assign", "assign-over", "self"):
        w = Map(ck, n)
        model = list(zip(w.keys, w.vals))
        t = ("T", "obj:copy") if how != "self" else w.m
        if how == "copy":
            f = ck.fn(M + "::LinkedHashMap", 1)
        else:
            f = ck.fn(M + "::operator=", 1)
        st = w.st
        if how != "self":
            w.eng.default_fields(st, t, map_type(ck), None)
        if how == "assign-over":
            ins = ck.fn(M + "::insert", 2)
            for j in range(2):
                a = w.num("o%d" % j)
                for x in w.keys + [w.num("o0")][:j]:
                    st.facts.assume(mk_eq0(sub(x, a)), False)
                st = ck.run(ins, w.eng, this=t, args=[constref(w.eng, st, a, "ok%d" % j), constref(w.eng, st, w.num("ov"), "ovv")], st=st)[0].st
        for p in ck.run(f, w.eng, this=t, args=[("ref", w.m)], st=st):
            verify(ck, f, p, t, model, how + " of %d entries" % n, "R3-copy")
            verify(ck, f, p, w.m, model, how + " (source) of %d entries" % n, "R3-copy")
            if how == "assign-over":
                # keys that were only in the overwritten map are gone
                st2 = p.st.copy()
                for q in ck.run(ck.fn(M + "::find", 1), w.eng, this=t, args=[constref(w.eng, st2, w.num("o0"), "lookup")], st=st2):
                    ck.require(entry(q, q.val) is None, "R3-copy", f, None, "stale", "a key of the overwritten map is still found after assignment", p)
            if how == "self" or not n:
                continue
            # change the copy, look at the source
            er = ck.fn(M + "::erase", 1)
            st2 = p.st.copy()
            for q in ck.run(er, w.eng, this=t, args=[constref(w.eng, st2, w.keys[0], "lookup")], st=st2):
                verify(ck, f, q, t, model[1:], how + " then erase in the copy", "R3-copy")
                verify(ck, f, q, w.m, model, how + " then erase in the copy (source)", "R3-copy")
            st2 = p.st.copy()
            nv = w.num("nv")
            for q in ck.run(ck.fn(M + "::insert_or_assign", 2), w.eng, this=t, args=[constref(w.eng, st2, w.keys[-1], "lookup"), constref(w.eng, st2, nv, "nv")], st=st2):
                verify(ck, f, q, t, model[:-1] + [(w.keys[-1], nv)], how + " then overwrite in the copy", "R3-copy")
                verify(ck, f, q, w.m, model, how + " then overwrite in the copy (source)", "R3-copy")


def equality(ck, n, m):
    w = Map(ck, n)
    t = ("T", "obj:other")
    st = w.st
    w.eng.default_fields(st, t, map_type(ck), None)
    ins = ck.fn(M + "::insert", 2)
    ks, vs = [], []
    for j in range(m):
        a, b = w.num("a%d" % j), w.num("b%d" % j)
        for x in ks:
            st.facts.assume(mk_eq0(sub(x, a)), False)
        st = ck.run(ins, w.eng, this=t, args=[constref(w.eng, st, a, "ak%d" % j), constref(w.eng, st, b, "bv%d" % j)], st=st)[0].st
        ks.append(a)
        vs.append(b)
    from specs import AND, IFF, eq, valid
    want = AND(*([eq(x, y) for x, y in zip(w.keys + w.vals, ks + vs)] if n == m else [False])) if n == m else False
    if n == m == 0:
        want = True
    for name, neg in (("operator==", False), ("operator!=", True)):
        f = ck.fn(M + "::" + name, 1)
        for p in ck.run(f, w.eng, this=w.m, args=[("ref", t)], st=st.copy()):
            r = p.val
            ck.oblig("R4-equal")
            for tv in (True, False):
                g = p.st.facts.copy()
                if g.assume(p.eng.as_bool(r), tv) is False:
                    continue
                res = tv != neg
                ok, h = valid(g, want if res else ("!", want))
                if not ok:
                    ck.bad("R4-equal", f, None, f["fn"] + "|eq%d%d" % (n, m), "%s of maps with %d and %d entries answers %s wrongly" % (name, n, m, tv), p)
    f = ck.fn(M + "::operator==", 1)
    for p in ck.run(f, w.eng, this=w.m, args=[("ref", w.m)], st=st.copy()):
        ck.require(p.val == ONE or p.st.facts.truth(p.eng.as_bool(p.val)) is True, "R4-equal", f, None, f["fn"] + "|self", "a map is not equal to itself", p)


def queue(ck, n):
    for mode in ("c", "r"):
        eng = ck.engine(seq=True, max_depth=12)
        eng.join = False
        st = eng.new_state()
        q = ("T", "obj:queue")
        qt = [r for r in ck.prog.records if r.startswith(Q + "<")]
        eng.default_fields(st, q, qt[0], None)
        pushes = ck.fn(Q + "::push", 1, many=True)
        push = [f for f in pushes if ("&&" in f["params"][0]["t"]) == (mode == "r")]
        if not push:
            raise AnalysisBroken("push overloads are gone")
        vals = []
        for i in range(n):
            v = eng.typed(("v", "q%d" % i), "long")
            vals.append(v)
            ps = ck.run(push[0], eng, this=q, args=[constref(eng, st, v, "qv%d" % i)], st=st)
            if len(ps) != 1:
                raise AnalysisBroken("push has %d paths" % len(ps))
            st = ps[0].st
        pop, front = ck.fn(Q + "::try_pop", 0), ck.fn(Q + "::try_front", 0)
        for i in range(n + 1):
            left = vals[i:]
            for name, want in (("size", c(len(left))), ("empty", c(not left))):
                f = ck.fn(Q + "::" + name, 0)
                for p in ck.run(f, eng, this=q, st=st.copy()):
                    ck.require(same(p, p.val, want), "R5-fifo", f, None, f["fn"] + "|" + name, "%s() is %s with %d elements" % (name, show(p.val), len(left)), p)
            for p in ck.run(front, eng, this=q, st=st.copy()):
                if left:
                    x = eng.read(p.st, loc_of(eng, p.val), "long") if p.val != NULL else None
                    ck.require(x is not None and same(p, x, left[0]), "R5-fifo", front, None, "front", "try_front() designates %s instead of %s" % (x and show(x), show(left[0])), p)
                else:
                    ck.require(p.val == NULL, "R5-fifo", front, None, "front0", "try_front() of an empty queue is not null", p)
            ps = ck.run(pop, eng, this=q, st=st.copy())
            for p in ps:
                v = p.val
                if v is not None and v[0] == "ref":
                    v = eng.read(p.st, v[1], None)
                if left:
                    x = v[1] if v[0] == "some" else None
                    if x is not None and x[0] == "ref":
                        x = eng.read(p.st, x[1], "long")
                    ck.require(x is not None and same(p, x, left[0]), "R5-fifo", pop, None, "pop", "try_pop() gives %s instead of %s" % (show(v), show(left[0])), p)
                else:
                    ck.require(v == ("none",), "R5-fifo", pop, None, "pop0", "try_pop() of an empty queue gives %s" % show(v), p)
            st = ps[0].st


# ---------------------------------------------------------------- tbb::concurrent_hash_map
def h_tbb(eng, e, st, fr):
    """find/insert/erase through an accessor on a map of known shape"""
    m = e["fn"].rsplit("::", 1)[1]
    args = e.get("a") or []
    out = []
    for s, l in _obj_locs(eng, e, st, fr):
        if m == "size":
            out.append((s, c(len(seq.cells(eng, s, l) or []))))
            continue
        if m == "empty":
            out.append((s, c(not (seq.cells(eng, s, l) or []))))
            continue
        if m == "clear":
            s.store[l] = op("seq")
            out.append((s, op("void")))
            continue
        for s2, vs in eng.ev_args(None, e, args, s, fr):
            cs = seq.cells(eng, s2, l)
            if cs is None:
                return NotImplemented
            acc = vs[0] if "accessor" in (args[0].get("t") or "") else None
            if m == "erase" and acc is not None:
                cur = s2.store.get(acc[1])
                if cur is None or cur == NULL or ("ref", cur[1]) not in cs:
                    out.append((s2, ZERO))
                else:
                    s2.store[l] = op("seq", *[x for x in cs if x != ("ref", cur[1])])
                    s2.store[acc[1]] = NULL
                    out.append((s2, ONE))
                continue
            kv = vs[1] if acc is not None else vs[0]
            val = None
            kt = args[1 if acc is not None else 0].get("t") or ""
            if "pair<" in kt:
                val = ("ref", ("F", kv[1], "second")) if kv[0] == "ref" else None
                if val is None:
                    return NotImplemented
                kv = ("ref", ("F", kv[1], "first"))
            for s3, i in seq.find_key(eng, s2, cs, kv, "long", True, fr, e):
                if m in ("find", "count"):
                    if acc is not None:
                        s3.store[acc[1]] = NULL if i is None else ("addr", cs[i][1])
                    out.append((s3, c(i is not None)))
                elif m in ("insert", "emplace"):
                    if i is None:
                        k = seq.load(eng, s3, kv)
                        v = seq.load(eng, s3, val) if val is not None else ZERO
                        cell = seq.put(eng, s3, op("pair", k, v), "std::pair<const long, long>")
                        s3.store[l] = op("seq", *(cs + [cell]))
                    else:
                        cell = cs[i]
                    if acc is not None:
                        s3.store[acc[1]] = ("addr", cell[1])
                    out.append((s3, c(i is None)))
                elif m == "erase":
                    if i is not None:
                        s3.store[l] = op("seq", *(cs[:i] + cs[i + 1:]))
                    out.append((s3, c(i is not None)))
                else:
                    return NotImplemented
    return out


def h_acc(eng, e, st, fr):
    m = e["fn"].rsplit("::", 1)[1]
    out = []
    for s, l in _obj_locs(eng, e, st, fr):
        v = s.store.get(l, NULL)
        if m == "operator->":
            out.append((s, v))
        elif m == "operator*":
            out.append((s, ("ref", v[1]) if v[0] == "addr" else v))
        elif m == "empty":
            out.append((s, c(v == NULL)))
        elif m == "release":
            s.store[l] = NULL
            out.append((s, op("void")))
        else:
            return NotImplemented
    return out


def h_acc_ctor(eng, e, st, fr):
    l = eng.temp("accessor")
    st.store[l] = NULL
    return [(st, ("ref", l))]


def tbb(ck):
    hs = {}
    for d in ("tbb::detail::d2::concurrent_hash_map", "tbb::detail::d1::concurrent_hash_map"):
        for m in ("find", "insert", "erase", "size", "count", "emplace", "empty", "clear"):
            hs[d + "::" + m] = h_tbb
        for a in ("accessor", "const_accessor"):
            for m in ("operator->", "operator*", "empty", "release"):
                hs["%s::%s::%s" % (d, a, m)] = h_acc
    return hs


def concurrent(ck, n):
    for name in ("Insert", "Erase", "Find"):
        eng = ck.engine(seq=True, max_depth=12, handlers=tbb(ck))
        eng.join = False
        st = eng.new_state()
        m = ("T", "obj:cmap")
        rec = [r for r in ck.prog.records if r.startswith(C + "<")]
        fields = [f["n"] for f in ck.prog.records[rec[0]]["fields"]]
        for f in fields:
            st.store[("F", m, f)] = op("empty", ("s", "tbb"))
        ins, find, size = ck.fn(C + "::Insert", 2), ck.fn(C + "::Find", 1), ck.fn(C + "::Size", 0)
        keys, vals = [], []
        for i in range(n):
            k, v = eng.typed(("v", "k%d" % i), "long"), eng.typed(("v", "v%d" % i), "long")
            for x in keys:
                st.facts.assume(mk_eq0(sub(x, k)), False)
            ps = ck.run(ins, eng, this=m, args=[constref(eng, st, k, "ck%d" % i), constref(eng, st, v, "cv%d" % i)], st=st)
            if len(ps) != 1:
                raise AnalysisBroken("Insert of a new key has %d paths" % len(ps))
            st = ps[0].st
            keys.append(k)
            vals.append(v)
        k, v = eng.typed(("v", "k"), "long"), eng.typed(("v", "v"), "long")
        kr, vr = constref(eng, st, k, "key"), constref(eng, st, v, "val")
        f = ck.fn(C + "::" + name, 2 if name == "Insert" else 1)
        for p0 in ck.run(f, eng, this=m, args=[kr, vr] if name == "Insert" else [kr], st=st):
            for p in resolve(p0, keys, k):
                i = hit(p, keys, k)
                model = dict(zip(keys, vals))
                if name == "Insert":
                    model[k if i is None else keys[i]] = v
                elif name == "Erase" and i is not None:
                    del model[keys[i]]
                elif name == "Find":
                    opt(ck, f, p, p.val, None if i is None else vals[i], "Find")
                for q in ck.run(size, eng, this=m, st=p.st.copy()):
                    ck.require(same(q, q.val, c(len(model))), "R6-conc", f, None, f["fn"] + "|size", "after %s Size() is %s instead of %d" % (name, show(q.val), len(model)), p)
                for kk in keys + [k]:
                    st2 = p.st.copy()
                    for q0 in ck.run(find, eng, this=m, args=[constref(eng, st2, kk, "lookup")], st=st2):
                        for q in resolve(q0, list(model), kk):
                            w = [y for x, y in model.items() if same(q, x, kk)]
                            opt(ck, f, q, q.val, w[0] if w else None, "after %s, Find" % name)


def opt(ck, f, p, v, want, what):
    if v is not None and v[0] == "ref":
        v = p.eng.read(p.st, v[1], None)
    if want is None:
        ck.require(v == ("none",), "R6-conc", f, None, f["fn"] + "|none", "%s of an absent key gives %s" % (what, show(v)), p)
        return
    x = v[1] if v[0] == "some" else None
    if x is not None and x[0] == "ref":
        x = p.eng.read(p.st, x[1], "long")
    ck.require(x is not None and same(p, x, want), "R6-conc", f, None, f["fn"] + "|value", "%s of a present key gives %s instead of %s" % (what, show(v), show(want)), p)


def vectors(ck):
    """key comparison of the string-vector maps"""
    f = ck.fn("paimon::VectorStringHashCompare::equal", 2)
    from specs import AND, vec, valid
    for n in range(0, 3):
        for m in range(0, 3):
            eng = ck.engine(seq=True)
            st = eng.new_state()
            a = [eng.typed(("v", "a%d" % i), "std::basic_string<char>") for i in range(n)]
            b = [eng.typed(("v", "b%d" % i), "std::basic_string<char>") for i in range(m)]
            x = vec(eng, st, ("T", "obj:a"), a, "std::basic_string<char>")
            y = vec(eng, st, ("T", "obj:b"), b, "std::basic_string<char>")
            for p in ck.run(f, eng, this=("T", "obj:cmp"), args=[x, y], st=st):
                t = [eq_atom(eng, p, i, j) for i, j in zip(a, b)] if n == m else [False]
                r = p.st.facts.truth(eng.as_bool(p.val))
                want = False if False in t else None if None in t else True
                ck.require(r is not None and r == want, "R6-conc", f, None, f["fn"] + "|eq", "keys with %d and %d parts compare %s" % (n, m, r), p)


def eq_atom(eng, p, i, j):
    return p.st.facts.truth(eng.compare(p.st, "==", i, j))


def check(ck):
    vectors(ck)
    for n in range(0, 4):
        ops(ck, n)
        copies(ck, n)
        own_key(ck, n)
    for n in range(0, 3):
        for m in range(0, 3):
            equality(ck, n, m)
    for n in range(0, 4):
        queue(ck, n)
        concurrent(ck, n)
