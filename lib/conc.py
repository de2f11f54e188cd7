"""Another thread at lock acquisitions, lock order, and which locks protect which fields.

The analysis of one thread stops at its k-th lock acquisition and the whole operation of another thread takes effect
before it goes on (every k that occurs is a case of its own).  Operations whose critical sections are complete give the
same answers as one of the two orders without interruption."""
from dom import op
from rules import AnalysisBroken, flat_events


def assign(s, s2):
    for k in s.__slots__:
        setattr(s, k, getattr(s2, k))


class Threads:
    """lock observer for one engine; client functions mark the operation with Begin(object) and End()"""

    def __init__(self, ck, eng, ns):
        self.ck = ck
        self.eng = eng
        self.ns = ns
        self.at = None          # interrupt at this acquisition of the marked operation
        self.other = None       # function of the other thread
        self.args = None        # its arguments (the marked object comes first)
        self.dead = {}          # (kind, line, file) -> text
        self.edges = set()
        self.fired = 0
        self.quiet = False
        eng.on_lock = self.lock
        eng.handlers[ns + "Begin"] = self.begin
        eng.handlers[ns + "End"] = self.end

    def begin(self, eng, e, st, fr):
        out = []
        for s, l in eng.lv(e["a"][0], st, fr):
            s.ghost["obj"] = l
            s.ghost["acq"] = 0
            s.ghost["active"] = True
            out.append((s, op("void")))
        return out

    def end(self, eng, e, st, fr):
        st.ghost["active"] = False
        return [(st, op("void"))]

    def lock(self, eng, s, m, mode):
        held = s.locks[:-1]
        if self.quiet:
            held = tuple(x for x in held if x not in self.base)
        for x, md, g in held:
            if x == m:
                self.dead[(m, "again")] = "a lock that the thread already holds is taken again"
            else:
                self.edges.add((x, m))
        if not self.due(s) or any(x[0] == y[0] for x in held for y in s.locks[-1:]):
            return
        self.interrupt(eng, s)

    def atomic(self, eng, s, l):
        """atomic accesses are interruption points too"""
        if self.due(s):
            self.interrupt(eng, s)

    def due(self, s):
        if self.quiet or not s.ghost.get("active"):
            return False
        s.ghost["acq"] += 1
        if s.ghost["acq"] != self.at:
            return False
        self.fired += 1
        return True

    def interrupt(self, eng, s):
        # the other thread waits for what this one holds: it can only run before when nothing else is held
        s2 = s.copy()
        s2.locks = ()
        s2.scopes = ()
        self.base = ()
        s2.ghost["active"] = False
        self.quiet = True
        stack, eng.stack, file = eng.stack, [], eng.file
        try:
            res = eng.run_body(self.other, s2, None, [("ref", s.ghost["obj"])] + [a for a in self.args], None, {"k": "call", "a": [], "l": 0})
        finally:
            self.quiet = False
            eng.stack, eng.file = stack, file
        if len(res) != 1:
            raise AnalysisBroken("the other thread has %d paths" % len(res))
        n = res[0][1]
        n.locks = s.locks
        n.scopes = s.scopes
        n.ghost["active"] = True
        n.ghost["acq"] = s.ghost["acq"]
        for k in ("obj",):
            n.ghost[k] = s.ghost[k]
        assign(s, n)


class Blocked(Exception):
    """the other thread needs a lock that the interrupted one holds"""


class AtCalls:
    """the whole operation of another thread just before the k-th system call of this one, unless it needs a lock held there"""

    def __init__(self, eng, other, args):
        self.eng, self.other, self.args = eng, other, args
        self.held = None
        eng.on_lock = self.lock

    def lock(self, eng, s, m, mode):
        if self.held is not None and any(x == m and (mode == "excl" or md == "excl") for x, md, g in self.held):
            raise Blocked()

    def __call__(self, eng, s):
        import osmodel as O
        s2 = s.copy()
        o = O.of(s)
        O.put(s2, inter=None)
        s2.locks = s2.scopes = ()
        stack, eng.stack, file = eng.stack, [], eng.file
        self.held = s.locks
        try:
            res = eng.run_body(self.other, s2, None, self.args(s2), None, {"k": "call", "a": [], "l": 0})
        except Blocked:
            O.put(s, inter=None, blocked=True)
            return
        finally:
            self.held = None
            eng.stack, eng.file = stack, file
        if len(res) != 1:
            raise AnalysisBroken("the other thread has %d paths" % len(res))
        n = res[0][1]
        n.locks, n.scopes = s.locks, s.scopes
        O.put(n, n=o.n, other=res[0][2])
        assign(s, n)


def order_clash(edges):
    """two objects locked in both orders, or a cycle"""
    return sorted((a, b) for a, b in edges if (b, a) in edges)


# ------------------------------------------------------------------ which lock protects which field
SYNC = ("std::mutex", "std::shared_mutex", "std::recursive_mutex", "std::condition_variable", "std::condition_variable_any", "std::atomic", "std::once_flag")
# members of standard containers that give access without changing the container
LOOKUP = {"begin", "end", "find", "at", "front", "back", "data", "get", "operator*", "operator->", "rbegin", "rend", "lower_bound",
          "upper_bound", "top", "equal_range", "joinable"}


def nodes(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from nodes(v)
    elif isinstance(n, list):
        for x in n:
            yield from nodes(x)


def member(n, cls):
    """field of the class a designator starts from"""
    while isinstance(n, dict):
        k = n.get("k")
        if k == "mem":
            if (n.get("q") or "").rsplit("::", 1)[0].split("<")[0] == cls.split("<")[0] and n.get("f"):
                return n["f"]
            n = n.get("b")
        elif k == "idx":
            n = n.get("b")
        elif k == "call" and n.get("obj") is not None:
            n = n["obj"]
        elif k in ("cast", "paren", "un"):
            n = n.get("e")
        else:
            return None
    return None


def changed_fields(fns, cls):
    """fields some of the functions may change (assignment, non-const member call, passing by mutable reference)"""
    out = set()
    for f in fns:
        for n in nodes(f.get("body")):
            k = n.get("k")
            t = None
            if k in ("assign", "bin") and (k == "assign" or n.get("op", "").endswith("=") and n.get("op") not in ("==", "!=", "<=", ">=")):
                t = member(n.get("x") if n.get("x") is not None else n.get("lhs"), cls)
            elif k == "un" and n.get("op") in ("++", "--", "&"):
                t = member(n.get("e"), cls)
            elif k == "call" and n.get("obj") is not None and not n.get("const") and n.get("fn", "").rsplit("::", 1)[-1] not in LOOKUP:
                t = member(n["obj"], cls)
            if t:
                out.add(t)
            if k in ("call", "construct"):
                for a, m in zip(n.get("a") or [], n.get("pm") or []):
                    if m in ("r", "x") and not str(n.get("fn", "")).startswith(tuple("std::%s" % x for x in ("lock_guard", "unique_lock", "shared_lock", "scoped_lock", "forward"))):
                        t = member(a, cls)
                        if t:
                            out.add(t)
    return out


def entry_points(prog, cls):
    """public methods, and private ones whose address is taken (threads, callbacks)"""
    q, _, ta = cls.partition("<")
    fs = [f for f in prog.by_id.values() if f.get("cls") == q and f.get("body") is not None and not f.get("dep") and (f.get("cta") or "") == ta[:-1]]
    taken = set()
    called = set()
    for f in fs:
        for n in nodes([f.get("body"), f.get("inits")]):
            if n.get("k") == "un" and n.get("op") == "&" and isinstance(n.get("e"), dict) and n["e"].get("dk") == "func":
                taken.add(n["e"].get("id"))
            elif n.get("k") == "call":
                called.add(n.get("id"))
    # a private method nobody in the class calls is there for friends
    return fs, [f for f in fs if f.get("acc") == "public" or f["id"] in taken or f["id"] not in called], taken


def lockset(ck, rule, cls, mutex=None, fields=None, **kw):
    """every access to the shared fields from an entry point happens with the lock held, exclusively when a shared lock
    exists and the access is in a function that changes the field"""
    r = ck.prog.records.get(cls)
    if r is None:
        raise AnalysisBroken("class %s is gone" % cls)
    locks = [f["n"] for f in r["fields"] if "mutex" in f["t"] and not f["t"].startswith("std::unique_ptr")]
    if mutex is None:
        if len(locks) != 1:
            raise AnalysisBroken("%s has %d locks" % (cls, len(locks)))
        mutex = locks[0]
    fs, entries, taken = entry_points(ck.prog, cls)
    plain = {f["n"] for f in r["fields"] if not f["t"].replace("mutable ", "").startswith(SYNC) and not f["t"].startswith("const ")}
    threads = any("std::thread" in f["t"] for f in r["fields"])
    if fields is None:
        # fields that only constructors set are not shared; a destructor counts when threads of the object still run
        fields = plain & changed_fields([f for f in fs if f.get("fk") == "method" or f.get("fk") == "dtor" and threads], cls)
        used = {member(n, cls) for f in fs if f.get("fk") not in ("ctor", "dtor") for n in nodes(f.get("body")) if n.get("k") == "mem"}
        fields &= used
    fields = set(fields) & plain
    if not fields:
        raise AnalysisBroken("%s: no field is shared between threads" % cls)
    n = 0
    for f in entries:
        if f.get("fk") == "ctor" or f.get("fk") == "dtor" and not threads or f.get("static"):
            continue
        this = ("T", "obj:" + cls.rsplit("::", 1)[-1], cls)
        lk = ("F", this, mutex)
        seen = {}

        def access(eng, s, loc, e, fr, seen=seen, lk=lk, this=this):
            if loc[0] == "F" and loc[1] == this and loc[2] in fields:
                held = [m for l, m, g in s.locks if l == lk]
                key = (loc[2], e.get("l", 0), fr.fn, fr.file)
                if held:
                    seen.setdefault(key, set()).add(held[0])
                else:
                    seen.setdefault(key, set()).add(None)
        eng = ck.engine(on_access=access, **kw)
        ps = ck.run(f, eng, this=this)
        for (fld, line, fn, file), modes in sorted(seen.items(), key=str):
            n += 1
            ck.require(None not in modes, rule, {"file": file, "fn": fn, "line": line}, line, "%s|%s|%s" % (f["fn"], fn, fld),
                       "%s touches the shared %s of %s without holding its lock (reached from %s)" % (fn, fld, cls, f["fn"]))
        for p in ps:
            left = [l for l, m, g in p.st.locks if l == lk]
            ck.require(not left, rule, f, None, f["fn"] + "|held", "%s returns with the lock held" % f["fn"], p)
    if not n:
        raise AnalysisBroken("%s: no access to shared state was seen" % cls)
    return n, sorted(fields)
