"""A status or result keeps its outcome through every copy, move and combination.

Status and Result are analysed as ordinary classes: objects with an
unknown kind, message and detail are pushed through every constructor,
assignment and operator, and the public observers are evaluated on source and
target in the resulting abstract heap.  The error record a status owns has
exactly one owner and is never observed after its deletion."""
from dom import NULL, ONE, ZERO, c, ge, mk_eq0, not_, op, strip_t, sub
from rules import AnalysisBroken, show, teq
from specs import THIS, AND, IFF, NOT, OR, eq, loc_of, valid, value

PREFIXES = ["common/utils/status"]
MIN_OBLIGATIONS = 100
RULES = {
    "R1-observe": "ok, code, message and detail report what the status was built with",
    "R2-copy": "copies and moves preserve kind, message and detail; a copied-from status keeps its own; assignment in every ok/error combination",
    "R3-own": "the error record has one owner: no shared, deleted or lost record after an operation",
    "R4-and": "combining statuses keeps the first error",
    "R5-equal": "equality is equality of kind, message and detail",
    "R6-result": "a Result holds the value or the error it was given, through copy, move and assignment",
    "R7-text": "the text of an error contains its kind, message and detail",
}
S = "paimon::Status"
R = "paimon::Result"


class World:
    def __init__(self, ck, raw=("Status",), **kw):
        self.ck = ck
        self.eng = ck.engine(raw=raw, **kw)
        self.st = self.eng.new_state()

    def run1(self, f, this=None, args=None):
        ps = self.ck.run(f, self.eng, this=this, args=args, st=self.st)
        if len(ps) != 1:
            raise AnalysisBroken("%s has %d paths where one is expected" % (f["fn"], len(ps)))
        self.st = ps[0].st
        return ps[0].val

    def make(self, name, kind):
        """a status object: 'ok', 'err', 'errd' (with detail)"""
        loc = ("T", "obj:" + name)
        if kind == "ok":
            loc = loc_of(self.eng, self.run1(self.ck.fn(S + "::OK", 0)))
            return Ob(self, loc, ZERO, None, NULL)
        code = self.eng.typed(("v", name + ".code"), "char")
        self.st.facts.assume(ge(code, ONE), True)
        self.st.facts.assume(ge(c(13), code), True)
        msg = ("v", name + ".msg")
        det = NULL
        if kind == "errd":
            det = ("v", name + ".detail")
            self.st.facts.assume(op("nonnull", det), True)
        f = self.ck.fn(S + "::Status", 3)
        self.run1(f, this=loc, args=[code, msg, det])
        return Ob(self, loc, code, msg, det)


class Ob:
    def __init__(self, w, loc, code, msg, det):
        self.w, self.loc, self.code, self.msg, self.det = w, loc, code, msg, det


def observe(ck, eng, st, loc):
    """(ok, code, message, detail) through the public observers; a list of variants per path"""
    out = []
    fs = {n: ck.fn(S + "::" + n, 0) for n in ("ok", "code", "message", "detail")}
    for p in ck.run(fs["ok"], eng, this=loc, st=st.copy()):
        t = p.st.facts.truth(p.val)
        tv = [t] if t is not None else [True, False]
        for t in tv:
            s = p.st.copy()
            if not s.facts.assume(p.val, t):
                continue
            for a in ck.run(fs["code"], eng, this=loc, st=s):
                for b in ck.run(fs["message"], eng, this=loc, st=a.st):
                    for d in ck.run(fs["detail"], eng, this=loc, st=b.st):
                        dv = value(d)
                        out.append((d, t, a.val, value(b), dv))
    return out


def msg_is(p, got, want):
    if want is None:
        return got == ("s", "") or (got is not None and got[0] == "op" and got[1] == "empty")
    return got == want


def nullish(p, v):
    return v == NULL or v == ZERO or p.st.facts.truth(op("nonnull", v)) is False or (v[0] == "op" and v[1] == "empty")


def same(ck, rule, f, p, key, loc, want, what, moved=False):
    """the object at loc shows the outcome of `want`"""
    n = 0
    for q, ok, code, msg, det in observe(ck, p.eng, p.st, loc):
        n += 1
        isok = want.code == ZERO
        ck.require(ok is isok, rule, f, None, "%s|%s ok" % (f["fn"], key), "%s is %s instead of %s" % (what, "ok" if ok else "an error", "ok" if isok else "an error"), q)
        if ok is not isok:
            continue
        ck.require(teq(q, code, want.code), rule, f, None, "%s|%s code" % (f["fn"], key), "%s has kind %s instead of %s" % (what, show(code), show(want.code)), q)
        ck.require(msg_is(q, msg, want.msg), rule, f, None, "%s|%s message" % (f["fn"], key), "%s has message %s instead of %s" % (what, show(msg), show(want.msg) if want.msg else "none"), q)
        okd = nullish(q, det) if want.det == NULL else det == want.det
        ck.require(okd, rule, f, None, "%s|%s detail" % (f["fn"], key), "%s has detail %s instead of %s" % (what, show(det), show(want.det)), q)
    if not n:
        raise AnalysisBroken("%s: no observation" % f["fn"])


def record_of(eng, st, loc, rec):
    """pointer values stored in the object"""
    out = []
    for fd in rec["fields"]:
        v = eng.read(st, ("F", loc, fd["n"]), fd.get("t"))
        out.append(v)
    return out


def ptr(v):
    return v is not None and v[0] == "addr"


def audit(ck, f, p, key, locs, before=()):
    """heap records: every object owns its own, none deleted, none lost"""
    rec = ck.record(S)
    dead = [e.obj for e in p.events("delete")]
    dead = [d for d in dead if ptr(d)]
    owned = []
    for l in locs:
        owned += [v for v in record_of(p.eng, p.st, l, rec) if ptr(v)]
    ck.require(len(set(owned)) == len(owned), "R3-own", f, None, "%s|%s shared" % (f["fn"], key), "two statuses own the same error record (it will be deleted twice)", p)
    ck.require(not set(owned) & set(dead), "R3-own", f, None, "%s|%s dangling" % (f["fn"], key), "a status keeps an error record that was deleted", p)
    ck.require(len(set(dead)) == len(dead), "R3-own", f, None, "%s|%s twice" % (f["fn"], key), "an error record is deleted twice", p)
    lost = [b for b in before if ptr(b) and b not in owned and b not in dead]
    ck.require(not lost, "R3-own", f, None, "%s|%s lost" % (f["fn"], key), "an error record is neither owned nor deleted after the operation", p)


def recs(ck, eng, st, *locs):
    rec = ck.record(S)
    return [v for l in locs for v in record_of(eng, st, l, rec) if ptr(v)]


def check(ck):
    observers(ck)
    copies(ck)
    ands(ck)
    equals(ck)
    text(ck)
    results(ck)


KINDS = ("ok", "err", "errd")


def observers(ck):
    for k in KINDS:
        w = World(ck)
        o = w.make("s", k)
        f = ck.fn(S + "::Status", 3)

        class P:
            eng, st = w.eng, w.st
        same(ck, "R1-observe", f, P, "built " + k, o.loc, o, "a status built as %s" % k)
    # two-argument constructor, OK()
    w = World(ck)
    f = ck.fn(S + "::Status", 2)
    code = w.eng.typed(("v", "k"), "char")
    w.st.facts.assume(ge(code, ONE), True)
    l = ("T", "obj:s")
    ml = ("D", ("v", "&m"))
    w.st.store[ml] = ("v", "m.text")
    w.run1(f, this=l, args=[code, ("ref", ml)])

    class P:
        eng, st = w.eng, w.st
    same(ck, "R1-observe", f, P, "built", l, Ob(w, l, code, ("v", "m.text"), NULL), "a status built from kind and message")
    w = World(ck)
    f = ck.fn(S + "::OK", 0)
    for p in ck.run(f, w.eng, st=w.st):
        same(ck, "R1-observe", f, p, "OK", loc_of(p.eng, p.val), Ob(w, None, ZERO, None, NULL), "Status::OK()")
    # WithDetail / WithMessage
    for k in ("err", "errd"):
        w = World(ck)
        o = w.make("s", k)
        f = ck.fn(S + "::WithDetail", 1)
        nd = ("v", "new.detail")
        w.st.facts.assume(op("nonnull", nd), True)
        for p in ck.run(f, w.eng, this=o.loc, args=[nd], st=w.st.copy()):
            same(ck, "R1-observe", f, p, "with detail", loc_of(p.eng, p.val), Ob(w, None, o.code, o.msg, nd), "WithDetail()")
            same(ck, "R1-observe", f, p, "original", o.loc, o, "the status WithDetail() was called on")
        f = ck.fn(S + "::WithMessage", 1)
        hs = {"paimon::util::StringBuilder": lambda eng, e, st, fr: [(s2, op("built", *[value2(eng, s2, v) for v in vs])) for s2, vs in eng.ev_args(None, e, e.get("a") or [], st, fr)]}
        w.eng.handlers.update(hs)
        ml = ("D", ("v", "&m"))
        w.st.store[ml] = ("v", "m.text")
        for p in ck.run(f, w.eng, this=o.loc, args=[("ref", ml)], st=w.st.copy()):
            same(ck, "R1-observe", f, p, "with message", loc_of(p.eng, p.val), Ob(w, None, o.code, op("built", ("v", "m.text")), o.det), "WithMessage()")


def value2(eng, st, v):
    return eng.read(st, v[1], None) if v[0] == "ref" else v


def pick(ck, name, n, p):
    return ck.fn(name, n, pick=p)


def ptype(f, i=0):
    return f["params"][i]["t"]


def copies(ck):
    cc = pick(ck, S + "::Status", 1, lambda f: "const paimon::Status &" in ptype(f))
    mc = pick(ck, S + "::Status", 1, lambda f: "paimon::Status &&" in ptype(f))
    ca = pick(ck, S + "::operator=", 1, lambda f: "const paimon::Status &" in ptype(f))
    ma = pick(ck, S + "::operator=", 1, lambda f: "paimon::Status &&" in ptype(f))
    for k in KINDS:
        for f in (cc, mc):
            w = World(ck)
            o = w.make("s", k)
            l = ("T", "obj:t")
            b = recs(ck, w.eng, w.st, o.loc)
            for p in ck.run(f, w.eng, this=l, args=[("ref", o.loc)], st=w.st.copy()):
                same(ck, "R2-copy", f, p, "%s target" % k, l, o, "the new status")
                if f is cc:
                    same(ck, "R2-copy", f, p, "%s source" % k, o.loc, o, "the copied-from status")
                audit(ck, f, p, k, [l, o.loc], b)
        for k2 in KINDS:
            for f in (ca, ma):
                w = World(ck)
                o, t = w.make("s", k), w.make("t", k2)
                b = recs(ck, w.eng, w.st, o.loc, t.loc)
                for p in ck.run(f, w.eng, this=t.loc, args=[("ref", o.loc)], st=w.st.copy()):
                    same(ck, "R2-copy", f, p, "%s to %s target" % (k, k2), t.loc, o, "the assigned status")
                    if f is ca:
                        same(ck, "R2-copy", f, p, "%s to %s source" % (k, k2), o.loc, o, "the assigned-from status")
                    audit(ck, f, p, "%s to %s" % (k, k2), [t.loc, o.loc], b)
        # copy to itself
        w = World(ck)
        o = w.make("s", k)
        b = recs(ck, w.eng, w.st, o.loc)
        for p in ck.run(ca, w.eng, this=o.loc, args=[("ref", o.loc)], st=w.st.copy()):
            same(ck, "R2-copy", ca, p, "%s self" % k, o.loc, o, "a status assigned to itself")
            audit(ck, ca, p, "%s self" % k, [o.loc], b)


def ands(ck):
    for name in ("operator&", "operator&="):
        for f in ck.fn(S + "::" + name, 1, many=True):
            mv = "&&" in ptype(f)
            for k in KINDS:
                for k2 in KINDS:
                    w = World(ck)
                    a, b = w.make("a", k), w.make("b", k2)
                    before = recs(ck, w.eng, w.st, a.loc, b.loc)
                    for p in ck.run(f, w.eng, this=a.loc, args=[("ref", b.loc)], st=w.st.copy()):
                        want = b if k == "ok" else a
                        key = "%s %s %s %s" % (k, name[8:], "moved" if mv else "const", k2)
                        if name == "operator&":
                            r = loc_of(p.eng, p.val)
                            same(ck, "R4-and", f, p, key, r, want, "the combination of %s and %s" % (k, k2))
                            same(ck, "R4-and", f, p, key + " left", a.loc, a, "the left operand")
                            audit(ck, f, p, key, [a.loc, b.loc] + ([r] if r not in (a.loc, b.loc) else []), before)
                        else:
                            same(ck, "R4-and", f, p, key, a.loc, want, "the combination of %s and %s" % (k, k2))
                            audit(ck, f, p, key, [a.loc, b.loc], before)
                        if not mv:
                            same(ck, "R4-and", f, p, key + " right", b.loc, b, "the right operand")


def equals(ck):
    f = ck.fn(S + "::Equals", 1)
    for k in KINDS:
        for k2 in KINDS:
            for shared in ((False, True) if k == k2 == "errd" else (False,)):
                w = World(ck)
                a, b = w.make("a", k), w.make("b", k2)
                if shared:
                    b = w.make("b", k2)
                    ren = b.det
                    w.st.facts.assume(op("==", a.det, b.det), True)
                deq = ("v", "details.equal")
                w.eng.typed(deq, "bool")
                w.eng.handlers["paimon::StatusDetail::operator=="] = lambda eng, e, st, fr: [(st, deq)]
                for p in ck.run(f, w.eng, this=a.loc, args=[("ref", b.loc)], st=w.st.copy()):
                    key = "%s %s%s" % (k, k2, " shared" if shared else "")
                    if k == "ok" or k2 == "ok":
                        ck.require(p.st.facts.truth(p.val) is (k == k2), "R5-equal", f, None, "%s|%s" % (f["fn"], key), "%s and %s compare %s" % (k, k2, show(p.val)), p)
                        continue
                    if k != k2:
                        ck.require(p.st.facts.truth(p.val) is False, "R5-equal", f, None, "%s|%s" % (f["fn"], key), "a status with and one without detail compare %s" % show(p.val), p)
                        continue
                    same_code = mk_eq0(sub(a.code, b.code))
                    meq = msg_eq_atom(p, a.msg, b.msg)
                    detp = op("==", a.det, b.det)
                    dt = True if k == "err" else OR(detp, deq)
                    ck.oblig("R5-equal")
                    # a detail is equal to itself
                    good, g = valid(p.st.facts, OR(IFF(p.val, AND(same_code, meq, dt)), AND(detp, NOT(deq), False)))
                    if not good:
                        ck.bad("R5-equal", f, None, "%s|%s" % (f["fn"], key), "Equals() is %s, which is not equality of kind, message and detail" % show(p.val), p.cond())


def msg_eq_atom(p, a, b):
    for x in (op("streq", a, b), op("streq", b, a), op("==", a, b), op("==", b, a)):
        if p.st.facts.truth(x) is not None:
            return x
    return op("==", a, b)


def text(ck):
    f = ck.fn(S + "::ToString", 0)
    for k in KINDS:
        w = World(ck)
        o = w.make("s", k)
        name = ("v", "code.name")
        w.eng.handlers["paimon::Status::CodeAsString"] = lambda eng, e, st, fr: [(st, name)]
        w.eng.handlers["paimon::StatusDetail::ToString"] = lambda eng, e, st, fr: [(st, ("v", "detail.text"))]
        for p in ck.run(f, w.eng, this=o.loc, st=w.st.copy()):
            s = str(value(p))
            want = [("kind", "code.name")] + ([("message", "s.msg")] if k != "ok" else []) + ([("detail", "detail.text")] if k == "errd" else [])
            for n, t in want:
                ck.require(t in s, "R7-text", f, None, "%s|%s %s" % (f["fn"], k, n), "the text of the status does not contain its %s: %s" % (n, show(value(p))), p)


# ---------------------------------------------------------------- Result
TYPES = ("std::basic_string<char>", "std::shared_ptr<paimon::InstBase>", "long")


def norm(t):
    return t.replace("const ", "").replace("&", "").replace("std::string", "std::basic_string<char>").replace("int64_t", "long").replace("paimon::InstBase", "InstBase").strip()


def rfn(ck, name, n, T, par=None, const=None):
    """member of Result<T>: by the class template argument"""
    fs = [f for f in ck.prog.fns(R + "::" + name) if not f.get("dep") and len(f["params"]) == n and norm(f.get("cta") or "") == norm(T)]
    if par is not None:
        fs = [f for f in fs if par(f["params"][0]["t"])]
    if const is not None:
        fs = [f for f in fs if bool(f.get("const")) is const]
    if not fs:
        raise AnalysisBroken("Result<%s>::%s is gone" % (T, name))
    return fs[0]


class Res:
    def __init__(self, loc, val, err):
        self.loc, self.val, self.err = loc, val, err


def converting(ck):
    """a result of a derived pointer becomes a result of the base pointer"""
    B, D = "std::shared_ptr<paimon::InstBase>", "std::shared_ptr<paimon::InstDerived>"
    f = rfn(ck, "Result", 1, B, lambda t: "Result<" in t and "InstDerived" in t)
    g = rfn(ck, "Result", 1, B, lambda t: "Result<" not in t and "InstDerived" in t)
    dv = rfn(ck, "Result", 1, D, lambda t: "Result<" not in t and "Status" not in t and "&&" not in t)
    ds = rfn(ck, "Result", 1, D, lambda t: norm(t) == "paimon::Status")
    ok, val, stf = rfn(ck, "ok", 0, B), rfn(ck, "value", 0, B, const=True), rfn(ck, "status", 0, B)
    v = ("v", "x")
    for k in ("direct", "val", "err", "errd"):
        w = World(ck, raw=("Status", "Result"))
        src, tgt, vl = ("T", "obj:src"), ("T", "obj:tgt"), ("T", "obj:value")
        w.st.store[vl] = v
        err = None
        if k == "direct":
            h, arg = g, ("ref", vl)
        else:
            h, arg = f, ("ref", src)
            if k == "val":
                w.run1(dv, this=src, args=[("ref", vl)])
            else:
                err = w.make("e", k)
                w.run1(ds, this=src, args=[("ref", err.loc)])
        for p in ck.run(h, w.eng, this=tgt, args=[arg], st=w.st.copy()):
            for a in ck.run(ok, p.eng, this=tgt, st=p.st.copy()):
                ck.require(a.st.facts.truth(a.val) is (err is None), "R6-result", h, None, "%s|convert %s ok" % (h["fn"], k), "a converted result is %s" % ("an error" if err is None else "a value"), a)
            if err is None:
                for a in ck.run(val, p.eng, this=tgt, st=p.st.copy()):
                    ck.require(value(a) == v, "R6-result", h, None, "%s|convert %s value" % (h["fn"], k), "a converted result holds %s" % show(value(a)), a)
            for a in ck.run(stf, p.eng, this=tgt, st=p.st.copy()):
                same(ck, "R6-result", h, a, "convert %s" % k, loc_of(a.eng, a.val), err or Ob(None, None, ZERO, None, NULL), "the status of a converted result")


def results(ck):
    converting(ck)
    for T in TYPES:
        isval = lambda t: norm(t) == norm(T)
        isres = lambda t: norm(t) == norm("paimon::Result<%s>" % T)
        fv = {"copy": rfn(ck, "Result", 1, T, lambda t: isval(t) and "&&" not in t), "move": rfn(ck, "Result", 1, T, lambda t: isval(t) and "&&" in t)}
        fs = rfn(ck, "Result", 1, T, lambda t: norm(t) == "paimon::Status")
        tgt = {"copy": rfn(ck, "Result", 1, T, lambda t: isres(t) and "&&" not in t), "move": rfn(ck, "Result", 1, T, lambda t: isres(t) and "&&" in t)}
        asg = {"copy": rfn(ck, "operator=", 1, T, lambda t: isres(t) and "&&" not in t), "move": rfn(ck, "operator=", 1, T, lambda t: isres(t) and "&&" in t)}
        obs = {"ok": rfn(ck, "ok", 0, T), "value": rfn(ck, "value", 0, T, const=True), "mvalue": rfn(ck, "value", 0, T, const=False), "status": rfn(ck, "status", 0, T)}

        def build(w, name, kind):
            loc = ("T", "obj:" + name)
            if kind == "val":
                v = w.eng.typed(("v", name + ".value"), T)
                vl = ("D", ("v", "&" + name + ".src"))
                w.st.store[vl] = v
                w.run1(fv["copy"], this=loc, args=[("ref", vl)])
                return Res(loc, v, None)
            e = w.make(name + ".e", kind)
            w.run1(fs, this=loc, args=[("ref", e.loc)])
            return Res(loc, None, e)

        def shows(f, p, key, loc, want, what):
            n = 0
            for a in ck.run(obs["ok"], p.eng, this=loc, st=p.st.copy()):
                n += 1
                t = a.st.facts.truth(a.val)
                ck.require(t is (want.err is None), "R6-result", f, None, "%s|%s %s ok" % (f["fn"], T, key), "%s %s" % (what, "is an error instead of a value" if want.err is None else "is a value instead of an error"), a)
                if t is not (want.err is None):
                    continue
                if want.err is None:
                    for g in ("value", "mvalue"):
                        for b in ck.run(obs[g], p.eng, this=loc, st=a.st.copy()):
                            v = value(b)
                            ck.require(v == want.val, "R6-result", f, None, "%s|%s %s value" % (f["fn"], T, key), "%s holds %s instead of %s" % (what, show(v), show(want.val)), b)
                for b in ck.run(obs["status"], p.eng, this=loc, st=a.st.copy()):
                    same(ck, "R6-result", f, b, "%s %s status" % (T, key), loc_of(b.eng, b.val), want.err or Ob(None, None, ZERO, None, NULL), "the status of " + what)
            if not n:
                raise AnalysisBroken("Result: no observation")

        RW = dict(raw=("Status", "Result"))
        # construction
        for k, f in fv.items():
            w = World(ck, **RW)
            v = w.eng.typed(("v", "x"), T)
            vl = ("D", ("v", "&x.src"))
            w.st.store[vl] = v
            l = ("T", "obj:r")
            for p in ck.run(f, w.eng, this=l, args=[("ref", vl)], st=w.st):
                shows(f, p, "from value " + k, l, Res(l, v, None), "a result built from a value")
        for k in ("err", "errd"):
            w = World(ck, **RW)
            r = build(w, "r", k)

            class P:
                eng, st = w.eng, w.st
            shows(fs, P, "from status " + k, r.loc, r, "a result built from an error")
        # copy / move
        for how, f in tgt.items():
            for k in ("val", "err", "errd"):
                w = World(ck, **RW)
                r = build(w, "r", k)
                l = ("T", "obj:t")
                for p in ck.run(f, w.eng, this=l, args=[("ref", r.loc)], st=w.st.copy()):
                    shows(f, p, "%s %s" % (how, k), l, r, "the new result")
                    if how == "copy":
                        shows(f, p, "%s %s source" % (how, k), r.loc, r, "the copied-from result")
                    elif k == "val":
                        for a in ck.run(obs["ok"], p.eng, this=r.loc, st=p.st.copy()):
                            ck.require(a.st.facts.truth(a.val) is True, "R6-result", f, None, "%s|%s moved-from ok" % (f["fn"], T), "a moved-from result forgets that it holds a value", a)
                    else:
                        for a in ck.run(obs["ok"], p.eng, this=r.loc, st=p.st.copy()):
                            ck.require(a.st.facts.truth(a.val) is False, "R6-result", f, None, "%s|%s moved-from err" % (f["fn"], T), "a moved-from error result claims a value that was never built (it is destroyed later)", a)
        for how, f in asg.items():
            for k in ("val", "err"):
                for k2 in ("val", "errd"):
                    w = World(ck, **RW)
                    r, t = build(w, "r", k), build(w, "t", k2)
                    for p in ck.run(f, w.eng, this=t.loc, args=[("ref", r.loc)], st=w.st.copy()):
                        shows(f, p, "assign %s %s to %s" % (how, k, k2), t.loc, r, "the assigned result")
                        if how == "copy":
                            shows(f, p, "assign %s %s to %s source" % (how, k, k2), r.loc, r, "the assigned-from result")
                        made = len([e for e in p.events("new") if e.args and not strip_t(e.fn or "").startswith("paimon::Status")])
                        ck.require(made == (1 if k == "val" and k2 != "val" else 0), "R6-result", f, None, "%s|%s assign %s %s to %s construct" % (f["fn"], T, how, k, k2),
                                   "a value is %s" % ("constructed over a live one" if k2 == "val" else "assigned to storage that holds none"), p)
                        dt = destroyed(p)
                        want = 1 if (k == "err" and k2 == "val") else 0
                        if T != "long":
                            ck.require(dt == want, "R6-result", f, None, "%s|%s assign %s %s to %s lifetime" % (f["fn"], T, how, k, k2),
                                       "the old value is destroyed %d times instead of %d" % (dt, want), p)
            for k in ("val", "err"):
                w = World(ck, **RW)
                r = build(w, "r", k)
                if how == "copy":
                    for p in ck.run(f, w.eng, this=r.loc, args=[("ref", r.loc)], st=w.st.copy()):
                        shows(f, p, "assign self %s" % k, r.loc, r, "a result assigned to itself")
        # value_or
        for const in (True, False):
            f = rfn(ck, "value_or", 1, T, const=const)
            for k in ("val", "err"):
                w = World(ck, **RW)
                r = build(w, "r", k)
                dv = w.eng.typed(("v", "fallback"), T)
                dl = ("D", ("v", "&fallback.src"))
                w.st.store[dl] = dv
                for p in ck.run(f, w.eng, this=r.loc, args=[("ref", dl)], st=w.st.copy()):
                    v = value(p)
                    ck.require(v == (r.val if k == "val" else dv), "R6-result", f, None, "%s|%s value_or %s" % (f["fn"], T, k), "value_or() of %s is %s" % ("a value" if k == "val" else "an error", show(v)), p)
        # destructor
        f = [g for g in ck.prog.fns(R + "::~Result") if not g.get("dep") and norm(g.get("cta") or "") == norm(T)]
        if not f:
            raise AnalysisBroken("~Result is gone")
        f = f[0]
        if T != "long":
            for k in ("val", "err"):
                w = World(ck, **RW)
                r = build(w, "r", k)
                for p in ck.run(f, w.eng, this=r.loc, st=w.st.copy()):
                    ck.require(destroyed(p) == (1 if k == "val" else 0), "R6-result", f, None, "%s|%s %s" % (f["fn"], T, k), "destroying a result with %s destroys its value %d times" % ("a value" if k == "val" else "an error", destroyed(p)), p)
                    if k == "err":
                        dead = [e for e in p.events("delete")]
                        ck.require(len(dead) == 1, "R6-result", f, None, "%s|%s record" % (f["fn"], T), "destroying an error result deletes its error record %d times" % len(dead), p)


def destroyed(p):
    return len([e for e in p.events() if e.kind == "call" and (e.fn or "").split("::")[-1].startswith("~") and not (e.fn or "").startswith("paimon::Status")])
