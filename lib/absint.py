"""Abstract interpreter over the extracted bodies.

Values are terms (dom.py); states carry an abstract store, linear facts and a
list of events.  Branches partition the state (ESP style) unless the facts
decide them; loops are summarised by havocking what the body writes and
keeping template invariants that the body preserves; calls to functions whose
body is in the program are analysed in the caller's context, everything else
is a fresh value plus an event.  Assertions are not assumed.
"""
import itertools

import bits as _bits
import flt as _flt
import seq as _seq
from dom import (INT, NULL, OK, ONE, ZERO, Facts, add, c, ge, is_int, is_ptr, lin_parts, mk_eq0,
                 mk_ge0, mk_lin, neg, not_, op, scale, strip_t, sub)


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


BOOLS = ("eq0", "ge0", "not")
OUTCOMES = {}  # condition node -> outcomes seen
MAX64 = 2 ** 48  # containers are never larger than this


class Event:
    __slots__ = ("kind", "fn", "obj", "args", "res", "line", "file", "node", "facts", "extra")

    def __init__(self, kind, fn=None, obj=None, args=(), res=None, line=0, file="", node=None, facts=None, extra=None):
        self.kind = kind
        self.fn = fn
        self.obj = obj
        self.args = args
        self.res = res
        self.line = line
        self.file = file
        self.node = node
        self.facts = facts
        self.extra = extra

    def __repr__(self):
        return "%s %s obj=%s args=%s res=%s @%s" % (self.kind, self.fn, show(self.obj), [show(a) for a in self.args],
                                                  show(self.res), self.line)


def show(t, d=0):
    if t is None:
        return "-"
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == "c":
        return str(t[1])
    if k == "s":
        return repr(t[1])
    if k in ("null", "ok", "none"):
        return k
    if k == "v":
        return t[1]
    if k == "in":
        return show_loc(t[1]) + ("'%d" % t[2] if t[2] else "")
    if k == "lin":
        s = " + ".join(("%s" % show(a) if x == 1 else "%d*%s" % (x, show(a))) for a, x in t[2])
        return "(%s%s)" % (s, " + %d" % t[1] if t[1] else "")
    if k == "ge0":
        return "%s>=0" % show(t[1])
    if k == "eq0":
        return "%s==0" % show(t[1])
    if k == "not":
        return "!(%s)" % show(t[1])
    if k == "op" and t[1] == "bits":
        at = sorted({show(a) for f in t[3] for a, _ in f[1]})
        return "bits(%s)" % ",".join(at)
    if k == "op":
        return "%s(%s)" % (t[1], ",".join(show(x) for x in t[2:]))
    if k == "ptr":
        return "&%s+%s" % (show_loc(t[1]), t[2])
    if k == "addr":
        return "&" + show_loc(t[1])
    if k == "ref":
        return show_loc(t[1])
    if k in ("okv", "some"):
        return "%s(%s)" % (k, show(t[1]))
    if k in ("V", "F", "D", "I", "T", "G", "B"):
        return show_loc(t)
    return "(" + ",".join(show(x) for x in t) + ")"


def show_loc(l):
    if not isinstance(l, tuple):
        return str(l)
    k = l[0]
    if k == "V":
        return str(l[2]).split("@")[0]
    if k == "F":
        b = l[1]
        if b == ("D", ("v", "this")):
            return "this." + l[2]
        return show_loc(b) + "." + l[2]
    if k == "D":
        return "*" + show(l[1])
    if k == "I":
        return "%s[%s]" % (show_loc(l[1]), show(l[2]))
    if k == "T":
        return "tmp%s" % l[1]
    if k == "G":
        return l[1]
    if k == "B":
        return show_loc(l[1])
    return show(l)


class State:
    __slots__ = ("store", "refs", "epochs", "facts", "events", "scopes", "locks", "ghost", "nepoch")

    def __init__(self, rangef):
        self.store = {}
        self.refs = {}
        self.epochs = {}
        self.facts = Facts(rangef)
        self.events = ()
        self.scopes = ()
        self.locks = ()
        self.ghost = {}
        self.nepoch = 0

    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store)
        s.refs = dict(self.refs)
        s.epochs = dict(self.epochs)
        s.facts = self.facts.copy()
        s.events = self.events
        s.scopes = self.scopes
        s.locks = self.locks
        s.ghost = dict(self.ghost)
        s.nepoch = self.nepoch
        return s


def loc_prefixes(loc):
    """the location and the objects that contain it"""
    while True:
        yield loc
        if loc[0] in ("F", "I", "B"):
            loc = loc[1]
        else:
            return


def under(loc, root):
    while loc != root:
        if loc[0] not in ("F", "I", "B"):
            return False
        loc = loc[1]
    return True


def distinct_locs(a, b):
    """two locations that are certainly different objects"""
    ra, rb = a, b
    while ra[0] in ("F", "I", "B"):
        ra = ra[1]
    while rb[0] in ("F", "I", "B"):
        rb = rb[1]
    return ra[0] in ("V", "T", "G") and rb[0] in ("V", "T", "G") and ra != rb


def _haslin_bits(t):
    return t[0] == "lin" and any(a[0] == "op" and a[1] == "bits" for a, _ in t[2])


class Frame:
    __slots__ = ("id", "fn", "this", "parent", "depth", "file", "declared", "retref")

    def __init__(self, id_, fn, this, parent, depth, file):
        self.id = id_
        self.fn = fn
        self.this = this
        self.parent = parent
        self.depth = depth
        self.file = file
        self.retref = False


RAII_LOCKS = ("std::lock_guard<", "std::unique_lock<", "std::shared_lock<", "std::scoped_lock<")

# std member functions that are declared non-const but do not change the object
NONMUT = {"begin", "end", "find", "operator[]", "at", "front", "back", "data", "get", "operator*", "operator->",
          "rbegin", "rend", "lower_bound", "upper_bound", "value", "top", "cbegin", "cend", "c_str", "equal_range",
          "load", "size", "empty"}

STD_CONTAINERS = ("vector", "basic_string", "map", "set", "unordered_map", "unordered_set", "list", "queue", "deque",
                  "basic_string_view", "array", "stack", "multimap", "priority_queue", "initializer_list", "pair",
                  "basic_ostringstream", "basic_stringstream", "basic_ostream", "tuple", "bitset")


def const_init(g):
    """value of a constant array or string, from its initialiser"""
    def val(n):
        if n is None:
            return None
        if n.get("cv") is not None and is_int(n.get("t", "")):
            return c(int(n["cv"]))
        if n.get("k") == "int":
            return c(int(n["v"]))
        if n.get("k") == "str":
            return ("s", n["v"])
        if n.get("k") == "init":
            vs = [val(x) for x in n.get("a") or []]
            t = strip_t(n.get("t", ""))
            if t.startswith("std::array<") and len(vs) == 1:
                return vs[0]
            return None if None in vs else op("list", *vs)
        return None
    if not (g.get("t") or "").startswith("const") or g.get("init") is None:
        return None
    return val(g["init"])


class Engine:
    def __init__(self, prog, policy=None, handlers=None, max_paths=3000, max_depth=14, on_access=None,
                 on_call=None, exact=True, track_writes=True, opaque=(), split_wraps=False, raw=(), seq=False, bits=False, unroll=0):
        self.prog = prog
        self.join = True    # join states that differ only in facts
        self.seq = seq      # explicit containers of known shape (seq.py)
        self.celltype = {}
        self.bits = bits            # bit-provenance domain on
        self.unroll = unroll        # loops with undecided tests are partitioned up to this many rounds
        # members of an anonymous union share one location
        self.unions = {}
        for k, r in prog.records.items():
            if "(anonymous union" in k and len(r["fields"]) > 1:
                for x in r["fields"]:
                    self.unions[r["q"] + "::" + x["n"]] = min(y["n"] for y in r["fields"])
        self.raw = frozenset(raw)   # "Status"/"Result": analyse the class itself instead of its model
        self.policy = policy
        self.handlers = dict(HANDLERS)
        self.dtors = False      # follow destructors of locals
        self._dtors = None
        if handlers:
            self.handlers.update(handlers)
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.on_access = on_access
        self.on_call = on_call
        self.exact = exact
        self.track_writes = track_writes
        self.opaque = set(opaque)
        self.deep = frozenset()
        self.n = 0
        self.steps = 0
        self.ttype = {}
        self.lams = []
        self.stack = []
        self.aborts = []    # states in which the process ends
        self.inlined = set()
        self.callees = set()
        self.loops = {}
        self.recursion = 1
        self._range_memo = {}
        self.max_steps = 2000000
        self.extra_cands = []
        self.split_wraps = split_wraps
        self.mem = False    # byte memory (mem.py)
        self.line = 0
        self.file = ""

    # ------------------------------------------------------------ utilities
    def fresh(self, name, t=None):
        self.n += 1
        v = ("v", "%s#%d" % (name, self.n))
        if t:
            self.ttype[v] = strip_t(t)
        return v

    def temp(self, cls=None):
        self.n += 1
        return ("T", self.n, cls)

    def typed(self, term, t):
        if t and term not in self.ttype:
            self.ttype[term] = strip_t(t)
        return term

    def int_range(self, t):
        t = strip_t(t)
        if t in INT:
            return INT[t]
        e = self.prog.enums.get(t)
        if e is not None:
            return INT["int"]
        return None

    def rangef(self, a):
        """type ranges of an atom as linear facts"""
        r = self._range_memo.get(a)
        if r is not None:
            return r
        out = []
        if a[0] in ("ge0", "eq0", "not"):
            out = [a, sub(ONE, a)]
        elif a[0] == "op" and a[1] in ("size", "length", "strlen"):
            out = [a, sub(c(MAX64), a)]
        elif a[0] == "op" and a[1] in ("min", "max"):
            s = 1 if a[1] == "min" else -1
            out = [scale(sub(a[2], a), s), scale(sub(a[3], a), s)]
            rg = self.int_range(self.ttype.get(a))
            if rg:
                out += [sub(a, c(rg[0])), sub(c(rg[1]), a)]
        elif a[0] == "op" and a[1] in ("cast", "wrap"):
            rg = self.int_range(a[2])
            if rg:
                out = [sub(a, c(rg[0])), sub(c(rg[1]), a)]
        elif a[0] == "op" and a[1] == "&" and len(a) == 4 and a[3][0] == "c" and a[3][1] >= 0:
            out = [a, sub(a[3], a)]
        elif a[0] == "op" and a[1] == "%" and a[3][0] == "c" and a[3][1] > 0:
            rg = self.int_range(self.ttype.get(a))
            out = [sub(c(a[3][1] - 1), a), add(a, c(a[3][1] - 1) if not rg or rg[0] < 0 else ZERO)]
        elif a[0] == "op" and a[1] == "/" and a[3][0] == "c" and a[3][1] > 0:
            rg = self.int_range(self.ttype.get(a))
            k = a[3][1]
            x = a[2]
            if rg and rg[0] >= 0:
                # k*a <= x <= k*a + k-1
                out = [sub(x, scale(a, k)), sub(add(scale(a, k), c(k - 1)), x), a]
            elif rg:
                out = [sub(add(scale(a, k), c(k - 1)), x), sub(add(x, c(k - 1)), scale(a, k)),
                       sub(a, c(rg[0] // k - 1)), sub(c(rg[1] // k + 1), a)]
        else:
            rg = self.int_range(self.ttype.get(a))
            if rg:
                out = [sub(a, c(rg[0])), sub(c(rg[1]), a)]
        if out or a in self.ttype:
            self._range_memo[a] = out
        return out

    def new_state(self):
        st = State(self.rangef)
        if self.bits:
            st.facts.gf = {}
        return st

    def is_record(self, t):
        t = strip_t(t)
        if t.endswith("*"):
            return False
        if t == "paimon::Status":
            return "Status" in self.raw
        if t.startswith("paimon::Result<"):
            return "Result" in self.raw
        return t in self.prog.records

    def record(self, t):
        return self.prog.records.get(strip_t(t))

    # ------------------------------------------------------------ store
    def epoch(self, st, loc):
        best = 0
        for p in loc_prefixes(loc):
            e = st.epochs.get(p)
            if e and e > best:
                best = e
        return best

    def deref(self, t):
        if t[0] == "addr":
            return t[1]
        if t[0] == "ref":
            return t[1]
        return ("D", t)

    def read(self, st, loc, t=None):
        if loc in st.store:
            return st.store[loc]
        if loc[0] == "P":
            return _mem.load(self, st, loc, t)
        if t and self.is_record(t):
            return ("ref", loc)
        if self.seq and (("F", loc, "first") in st.store or ("F", loc, "second") in st.store):
            return _seq.load(self, st, ("ref", loc))
        if loc[0] == "G":
            g = self.prog.globals.get(loc[1])
            if g is not None and g.get("init") is not None and g["t"].startswith("const"):
                cv = g["init"].get("v" if g["init"].get("k") == "int" else "cv")
                if cv is not None and is_int(g["t"]):
                    return c(int(cv))
                if g["init"].get("k") == "str":
                    return ("s", g["init"]["v"])
            v = ("in", loc, st.epochs.get(loc, 0))
            return self.typed(v, t)
        if loc[0] == "F" and loc[2] == "*opt":
            b = st.store.get(loc[1])
            if b is not None and b[0] == "some":
                return b[1]
        # a half of a pair held as one value
        if loc[0] == "F" and loc[2] in ("first", "second"):
            b = st.store.get(loc[1])
            if b is not None and b[0] == "op" and b[1] in ("pair", "list") and len(b) == 4:
                w = b[2 if loc[2] == "first" else 3]
                return self.read(st, w[1], t) if w[0] == "ref" and not self.is_record(t or "") else w
        # an element of an array whose contents are known
        if loc[0] == "I" and loc[2][0] == "c":
            b = st.store.get(loc[1])
            if b is None and loc[1][0] == "G":
                b = const_init((self.prog.globals.get(loc[1][1]) or {}))
            if b is not None:
                i = loc[2][1]
                if b[0] == "s" or self.seq and b[0] == "op" and b[1] == "str":
                    cs = (_seq.chars(b) or []) + [ZERO]
                    if 0 <= i < len(cs):
                        return cs[i]
                elif b[0] == "op" and b[1] == "list" and 0 <= i < len(b) - 2 and b[2 + i][0] in ("c", "s"):
                    return b[2 + i]
        v = ("in", loc, self.epoch(st, loc))
        return self.typed(v, t)

    def write(self, st, loc, val, node=None, frame=None):
        if loc[0] == "P":
            if node is not None:
                self.line = node.get("l", 0)
            _mem.store(self, st, loc, val)
            return
        if self.seq and loc[0] == "I" and loc[2][0] == "c" and loc[1] in st.store:
            # a character of a string
            cs = _seq.chars(st.store[loc[1]])
            if cs is not None and 0 <= loc[2][1] < len(cs):
                st.store[loc[1]] = _seq.mkstr(cs[:loc[2][1]] + [val] + cs[loc[2][1] + 1:])
                return
        if loc[0] == "F" and loc[2] == "*opt":
            st.store[loc[1]] = ("some", val)
            return
        # writing an element of a functional container value
        if loc[0] == "F" and loc[2] in ("first", "second"):
            b = st.store.get(loc[1])
            if b is not None and b[0] == "op" and b[1] in ("pair", "list") and len(b) == 4:
                del st.store[loc[1]]
                st.store[("F", loc[1], "first")] = b[2]
                st.store[("F", loc[1], "second")] = b[3]
        st.store[loc] = val
        if loc[0] == "I":
            # other elements at unknown distance may be the same element
            for k in list(st.store):
                if k != loc and k[0] == "I" and k[1] == loc[1]:
                    if st.facts.truth(mk_eq0(sub(k[2], loc[2]))) is not False if (k[2][0] in ("c", "lin", "v", "in", "op") and loc[2][0] in ("c", "lin", "v", "in", "op")) else True:
                        del st.store[k]
            # the container's own value term changes
            if loc[1] in st.store and not (isinstance(st.store[loc[1]], tuple) and st.store[loc[1]][0] == "ref"):
                st.store[loc[1]] = op("upd", st.store[loc[1]], loc[2], val)
        if self.track_writes and loc[0] not in ("V", "T") and not (loc[0] in ("F", "I") and self._root(loc)[0] in ("T", "V")):
            st.events = st.events + (Event("write", None, loc, (val,), None, node.get("l", 0) if node else 0,
                                          self.file, node),)

    def _root(self, loc):
        while loc[0] in ("F", "I", "B"):
            loc = loc[1]
        return loc

    def havoc(self, st, root, why=""):
        st.nepoch += 1
        self.n += 1
        for k in list(st.store):
            if under(k, root):
                del st.store[k]
        st.epochs[root] = self.n

    def copy_object(self, st, src, dst, cls):
        """dst := src for a record kept field by field"""
        for k in list(st.store):
            if k != dst and under(k, dst):
                del st.store[k]
        r = self.record(cls)
        if r is None:
            st.store[dst] = self.read(st, src, None)
            return
        if strip_t(cls) in self.deep:
            # a class that owns a heap object: the copy gets its own
            for f in r["fields"]:
                v = self.read(st, ("F", src, f["n"]), f["t"])
                if v is not None and v[0] == "addr":
                    h = self.temp()
                    if v[1] in st.store:
                        st.store[h] = st.store[v[1]]
                    v = ("addr", h)
                st.store[("F", dst, f["n"])] = v
            return
        for k, v in list(st.store.items()):
            if k != src and under(k, src):
                st.store[self._rebase(k, src, dst)] = _seq.clone(self, st, v) if self.seq else v
        self._copy_unread(st, src, dst, cls, 0)

    def _copy_unread(self, st, src, dst, cls, d):
        r = self.record(cls)
        if r is None or d > 4:
            return
        for b in r["bases"]:
            self._copy_unread(st, src, dst, b, d + 1)
        for f in r["fields"]:
            s = ("F", src, f["n"])
            t = ("F", dst, f["n"])
            if self.is_record(f["t"]):
                self._copy_unread(st, s, t, f["t"], d + 1)
            elif t not in st.store:
                st.store[t] = self.read(st, s, f["t"])

    def _rebase(self, loc, src, dst):
        if loc == src:
            return dst
        return (loc[0], self._rebase(loc[1], src, dst)) + loc[2:]

    # ------------------------------------------------------------ integers
    def norm(self, st, t, ty):
        """value of an arithmetic result computed at type ty"""
        ty = strip_t(ty)
        rg = INT.get(ty)
        if rg is None:
            return t
        if t[0] == "c":
            lo, hi = rg
            n = t[1]
            if lo <= n <= hi:
                return t
            w = hi - lo + 1
            return c((n - lo) % w + lo)
        if not self.exact or ty.startswith("__int128"):
            return t
        if rg[0] == 0 and ty != "bool":
            n, p = lin_parts(t)
            if len(p) == 1 and p[0][1] == 1 and n == 0:
                return t
            if st.facts.entails_ge0(t) and st.facts.entails_ge0(sub(c(rg[1]), t)):
                return t
            return op("wrap", ty, t)
        return t

    def cast(self, st, t, to, frm=None):
        to = strip_t(to)
        rg = INT.get(to)
        if rg is None:
            if to in self.prog.enums:
                return t
            return t
        if t[0] == "c":
            return self.norm(st, t, to)
        if t[0] in ("s", "null", "addr", "ref", "okv", "some"):
            return t
        if to == "bool":
            return t
        if frm is not None:
            f = INT.get(strip_t(frm))
            if f and f[0] >= rg[0] and f[1] <= rg[1]:
                return t
        if st.facts.entails_ge0(sub(t, c(rg[0]))) and st.facts.entails_ge0(sub(c(rg[1]), t)):
            return t
        if self.bits and ((t[0] == "op" and t[1] == "bits") or _haslin_bits(t)):
            r = _bits.narrow(self, st, t, to)
            if r is not None:
                return r
        if t[0] == "op" and t[1] == "cast" and INT.get(t[2]):
            f = INT[t[2]]
            # re-narrowing to a type of at most that width only keeps the low bits
            if (rg[1] - rg[0]) <= (f[1] - f[0]):
                return self.cast(st, t[3], to)
        return op("cast", to, t)

    def split_wrap(self, s, v):
        """partition a wrapped/narrowed value into its linear pieces
        (t, t - 2^n, t + 2^n) when one of them must apply"""
        if not self.split_wraps or v[0] != "op" or v[1] not in ("wrap", "cast"):
            return [(s, v)]
        rg = INT.get(v[2])
        if rg is None or v[2] == "bool":
            return [(s, v)]
        t = v[3]
        w = rg[1] - rg[0] + 1
        f = s.facts
        if not (f.entails_ge0(sub(t, c(rg[0] - w))) and f.entails_ge0(sub(c(rg[1] + w), t))):
            return [(s, v)]
        out = []
        for k in (0, 1, -1):
            x = sub(t, c(k * w))
            s2 = s.copy()
            if s2.facts.assume(mk_ge0(sub(x, c(rg[0]))), True) and s2.facts.assume(mk_ge0(sub(c(rg[1]), x)), True):
                out.append((s2, x))
        return out

    def is_boolish(self, t):
        return t[0] in ("ge0", "eq0", "not") or self.ttype.get(t) == "bool"

    # name each unknown sum, difference and product by its operands: keeps nested hash computations linear in size
    named = None
    exact_throw = False
    call_throw = False
    on_lock = None
    on_atomic = None

    def arith(self, st, o, x, y, ty, node=None):
        if self.named is None or o not in ("+", "-", "*", "/", "%") or (x[0] == "c" and y[0] == "c") or "ptr" in (x[0], y[0]) or _bits.width(ty) is None:
            return self.arith0(st, o, x, y, ty, node)
        if o in ("+", "*") and repr(y) < repr(x):
            x, y = y, x
        if (o == "*" and ONE in (x, y)) or (o in "+-" and y == ZERO) or (o == "+" and x == ZERO) or ZERO in (x, y):
            return self.arith0(st, o, x, y, ty, node)
        k = (o, x, y, strip_t(ty))
        if k not in self.named:
            self.named[k] = self.typed(("v", "%s#%d:%s" % (o, len(self.named), strip_t(ty))), ty)
        return self.named[k]

    def arith0(self, st, o, x, y, ty, node=None):
        if x[0] == "ptr":
            return _mem.move(self, st, x, y, ty, 1 if o == "+" else -1)
        if o == "+":
            return self.norm(st, add(x, y), ty)
        if o == "-":
            if x[0] in ("null",) or y[0] == "null":
                return op("-", x, y)
            return self.norm(st, sub(x, y), ty)
        if o == "*":
            if x[0] == "c":
                return self.norm(st, scale(y, x[1]), ty)
            if y[0] == "c":
                return self.norm(st, scale(x, y[1]), ty)
            a, b = sorted((x, y), key=repr)
            return self.typed(op("*", a, b), ty)
        if o in ("/", "%"):
            if x[0] == "c" and y[0] == "c" and y[1] != 0:
                q = abs(x[1]) // abs(y[1])
                if (x[1] < 0) != (y[1] < 0):
                    q = -q
                return c(q if o == "/" else x[1] - q * y[1])
            if y == ONE:
                return x if o == "/" else ZERO
            return self.typed(op(o, x, y), ty)
        if self.bits and o in ("<<", ">>", "&", "|", "^"):
            r = _bits.arith(self, st, o, x, y, ty)
            if r is not None:
                return r
        if o in ("<<", ">>"):
            if x[0] == "c" and y[0] == "c" and 0 <= y[1] < 128:
                return self.norm(st, c(x[1] << y[1] if o == "<<" else x[1] >> y[1]), ty)
            if y == ZERO:
                return x
            return self.typed(op(o, x, y), ty)
        if o in ("&", "|", "^"):
            if x[0] == "c" and y[0] == "c":
                v = {"&": x[1] & y[1], "|": x[1] | y[1], "^": x[1] ^ y[1]}[o]
                return self.norm(st, c(v), ty)
            if o == "&" and (x == ZERO or y == ZERO):
                return ZERO
            if o in ("|", "^") and x == ZERO:
                return y
            if o in ("|", "^") and y == ZERO:
                return x
            if x[0] == "c" or (y[0] != "c" and repr(x) > repr(y)):
                x, y = y, x
            return self.typed(op(o, x, y), ty)
        raise Unsupported("operator " + o)

    def compare(self, st, o, x, y, tx=None):
        if self.mem and "ptr" in (x[0], y[0]):
            if x[0] == y[0] and (x[1] == y[1] or o in ("==", "!=")):
                a, b = (x[2], y[2]) if x[1] == y[1] else (0, 1)
                return c({"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o])
            if NULL in (x, y) and o in ("==", "!="):
                return c(o == "!=")
        if self.bits and any(z[0] == "op" and z[1] == "bits" for z in (x, y)):
            r = _bits.decide(self, st.facts, o, x, y)
            if r is not None:
                return c(r)
        if x[0] == "f" and y[0] == "f":
            r = _flt.compare(o, x, y)
            if r is not None:
                return r
        ptrish = ("null", "addr", "none", "some", "s", "ref", "ok", "err", "okv", "lam")
        if o in ("==", "!="):
            r = None
            if x == y:
                r = ONE
            elif x[0] == "c" and y[0] == "c":
                r = c(x[1] == y[1])
            elif x[0] == "op" and y[0] == "op" and x[1] in ("iter", "riter") and y[1] == x[1]:
                r = ZERO
            elif x[0] in ptrish or y[0] in ptrish:
                if x[0] == "s" and y[0] == "s":
                    r = c(x[1] == y[1])
                elif {x[0], y[0]} in ({"null", "addr"}, {"none", "some"}):
                    r = ZERO
                elif x[0] == "some" and y[0] == "some" and x[1][0] == "c" and y[1][0] == "c":
                    r = c(x[1][1] == y[1][1])
                elif x[0] == "addr" and y[0] == "addr" and distinct_locs(x[1], y[1]):
                    r = ZERO
                elif x[0] == "null" or y[0] == "null":
                    z = y if x[0] == "null" else x
                    r = not_(op("nonnull", z)) if z[0] != "null" else ONE
                else:
                    a, b = sorted((x, y), key=repr)
                    r = op("==", a, b)
            elif (x[0] == "c" and x[1] in (0, 1) and self.is_boolish(y)) or \
                    (y[0] == "c" and y[1] in (0, 1) and self.is_boolish(x)):
                k, b = (x, y) if x[0] == "c" else (y, x)
                r = b if k[1] else not_(b)
            elif self._numeric(x, tx) and self._numeric(y, tx):
                r = mk_eq0(sub(x, y))
            else:
                a, b = sorted((x, y), key=repr)
                r = op("==", a, b)
            return r if o == "==" else not_(r)
        if self._numeric(x, tx) and self._numeric(y, tx):
            if o == ">=":
                return ge(x, y)
            if o == "<=":
                return ge(y, x)
            if o == ">":
                return mk_ge0(sub(sub(x, y), ONE))
            if o == "<":
                return mk_ge0(sub(sub(y, x), ONE))
        if x == y:
            return c(o in (">=", "<="))
        if o == "<":
            return op("<", x, y)
        if o == ">":
            return op("<", y, x)
        if o == "<=":
            return not_(op("<", y, x)) if tx not in ("double", "float") else op("<=", x, y)
        return not_(op("<", x, y)) if tx not in ("double", "float") else op("<=", y, x)

    def _numeric(self, t, ty):
        if t[0] in ("c", "lin", "ge0", "eq0", "not"):
            return True
        if ty is not None:
            s = strip_t(ty)
            return s in INT or s in self.prog.enums or s.endswith("*")
        x = self.ttype.get(t)
        return x is not None and (x in INT or x in self.prog.enums or x.endswith("*"))

    def as_bool(self, t, ty=None):
        if t[0] in ("c", "ge0", "eq0", "not"):
            return t if t[0] != "c" else c(t[1] != 0)
        if t[0] == "null" or t[0] == "none":
            return ZERO
        if t[0] in ("addr", "some", "lam", "ref", "ptr"):
            return ONE
        ty = strip_t(ty) if ty else self.ttype.get(t)
        if ty == "bool":
            return t
        if ty and (ty in INT):
            return not_(mk_eq0(t))
        if ty and ty.endswith("*"):
            return op("nonnull", t)
        if t[0] == "lin":
            return not_(mk_eq0(t))
        return t

    # ------------------------------------------------------------ branching
    def decide(self, st, v, cond):
        """[(state, bool)] for a condition of the program; the outcomes seen are recorded"""
        out = self.branch(st, self.as_bool(v, cond.get("t")))
        seen = OUTCOMES.setdefault(id(cond), set())
        for _, b in out:
            seen.add(b)
        return out

    def branch(self, st, cond):
        """[(state, bool)]"""
        r = st.facts.truth(cond)
        if r is not None:
            return [(st, r)]
        out = []
        s2 = st.copy()
        if st.facts.assume(cond, True):
            out.append((st, True))
        if s2.facts.assume(cond, False):
            out.append((s2, False))
        self._count(len(out))
        return out

    def _count(self, k):
        self.steps += k
        if self.steps > self.max_steps:
            raise Budget("step budget exceeded in " + "/".join(self.stack))

    # ------------------------------------------------------------ variables
    def var_loc(self, st, fr, d):
        f = fr
        while f is not None:
            l = ("V", f.id, d)
            if l in st.refs:
                return st.refs[l]
            if l in st.store or l in st.ghost.get("declared", ()):
                return l
            f = f.parent
        return ("V", fr.id, d)

    def declare(self, st, fr, d):
        l = ("V", fr.id, d)
        st.refs.pop(l, None)
        dec = st.ghost.get("declared", frozenset())
        if l in dec:
            for k in [k for k in st.store if under(k, l)]:
                del st.store[k]
        else:
            st.ghost["declared"] = dec | {l}
        st.epochs.pop(l, None)
        return l

    # ------------------------------------------------------------ expressions
    def lv(self, e, st, fr):
        """[(state, loc)]"""
        k = e["k"]
        if k == "ref":
            dk = e.get("dk")
            if dk in ("param", "var", "slocal", "binding"):
                l = self.var_loc(st, fr, e["d"])
                return [(st, l)]
            if dk == "global":
                return [(st, ("G", e.get("q", e["n"])))]
            if dk == "func":
                return [(st, ("G", "fn:" + (e.get("q") or e.get("fn") or e["n"])))]
            l = self.temp(strip_t(e.get("t", "")))
            st.store[l] = c(int(e["v"])) if dk == "enum" else self.fresh("ref:" + str(e.get("n")), e.get("t"))
            return [(st, l)]
        if k == "mem":
            out = []
            for s, l in (self.ptr_loc(e["b"], st, fr) if e.get("arrow") else self.lv(e["b"], st, fr)):
                loc = ("F", l, self.unions.get(e.get("q"), e["f"])) if e["f"] else l
                if loc in s.refs:
                    loc = s.refs[loc]
                if self.on_access:
                    self.on_access(self, s, loc, e, fr)
                out.append((s, loc))
            return out
        if k == "un" and e["op"] == "*":
            return self.ptr_loc(e["e"], st, fr)
        if k == "un" and e["op"] in ("++", "--"):
            out = []
            for s, l in self.lv(e["e"], st, fr):
                v = self.read(s, l, e["e"].get("t"))
                nv = self.arith(s, "+" if e["op"] == "++" else "-", v, ONE, e["e"].get("t"))
                self.write(s, l, nv, e, fr)
                out.append((s, l))
            return out
        if k == "idx":
            out = []
            bt = strip_t(e["b"].get("t", ""))
            for s, b in (self.ptr_loc(e["b"], st, fr) if bt.endswith("*") else self.lv(e["b"], st, fr)):
                for s2, i in self.ev(e["i"], s, fr):
                    if self.mem:
                        self.line = e.get("l", 0)
                        x = s2.store.get(b)
                        if x is not None and x[0] == "ptr" and not bt.endswith("*"):
                            b = ("P", x[1], x[2], strip_t(e.get("t") or ""))
                        elif bt.endswith("*") and b[0] in ("V", "T", "F") and not self.is_record(e.get("t") or "") and _mem.size(self, e.get("t")):
                            b = ("P", ("S", b, strip_t(e["t"])), 0, strip_t(e["t"]))
                        if b[0] == "P":
                            i = c(_mem.cint(self, s2, i, "index"))
                    out.append((s2, self.index_loc(b, i)))
            return out
        if k == "assign":
            out = []
            for s, l in self.do_assign(e, st, fr):
                out.append((s, l))
            return out
        if k == "cond":
            out = []
            for s, v in self.ev(e["c"], st, fr):
                for s2, b in self.decide(s, v, e["c"]):
                    out += self.lv(e["a"] if b else e["b"], s2, fr)
            return out
        if k == "cast":
            if e.get("ck") == "Dynamic" or strip_t(e.get("t", "")).endswith("*") is False:
                return self.lv(e["e"], st, fr)
        if k in ("call", "construct", "init", "lambda", "str", "zero", "new", "defarg", "this", "int", "bool", "null", "bin",
                 "cast", "float", "sizeof", "un", "other", "typeid", "stmtexpr", "recovery"):
            out = []
            if k == "call" and self.seq and e.get("fn") in ("std::optional::value", "std::optional::operator*") and not self.is_record(e.get("t") or ""):
                # the content of an optional can be changed in place
                ls = _obj_locs(self, e, st, fr)
                if len(ls) == 1 and ls[0][0].store.get(ls[0][1], ("",))[0] == "some" and ls[0][0].store[ls[0][1]][1][0] not in ("ref", "addr"):
                    return [(ls[0][0], ("F", ls[0][1], "*opt"))]
                st = ls[0][0] if len(ls) == 1 else st
            for s, v in (self.ev_call(e, st, fr) if k == "call" and e.get("cv") is None else self.ev(e, st, fr)):
                if v is not None and v[0] == "ref":
                    out.append((s, v[1]))
                else:
                    l = self.temp(strip_t(e.get("t", "")))
                    s.store[l] = v if v is not None else op("void")
                    out.append((s, l))
            return out
        raise Unsupported("lvalue " + k)

    def index_loc(self, b, i):
        """element i of the array/pointer target b, folding p+k"""
        if b[0] == "P":
            return ("P", b[1], b[2] + i[1] * _mem.size(self, b[3]), b[3])
        if b[0] == "D" and b[1][0] == "lin":
            # *(p + k) indexed by i is p[k + i]
            base, off = self.split_ptr(b[1])
            if base is not None:
                b, i = ("D", base), add(off, i)
        if b[0] == "D" and i[0] == "c" and b[1][0] == "op" and b[1][1] == "data":
            # an element of a container of known shape
            q = b[1][2]
            if q[0] == "op" and q[1] == "seq" and 0 <= i[1] < len(q) - 2 and q[2 + i[1]][0] == "ref":
                return q[2 + i[1]][1]
        return ("I", b, i)

    def split_ptr(self, t):
        """pointer term -> (base atom, integer offset)"""
        n, p = lin_parts(t)
        base = None
        rest = []
        for a, k in p:
            ty = self.ttype.get(a)
            if k == 1 and base is None and (a[0] == "addr" or (ty and ty.endswith("*")) or
                                            (a[0] == "op" and a[1] in ("data", "c_str"))):
                base = a
            else:
                rest.append((a, k))
        return base, mk_lin(n, tuple(rest))

    def ptr_loc(self, e, st, fr):
        """location a pointer-valued expression points to"""
        out = []
        for s, v in self.ev(e, st, fr):
            if v[0] == "ref":
                out.append((s, v[1]))
            elif v[0] == "addr":
                out.append((s, v[1]))
            elif v[0] == "ptr":
                self.line = e.get("l", 0)
                if v[1][0] == "S" and v[2] == 0 and v[1][2] == _mem.pointee(e.get("t")):
                    out.append((s, v[1][1]))
                else:
                    out.append((s, ("P", v[1], v[2], _mem.pointee(e.get("t")))))
            elif v[0] == "lin":
                base, off = self.split_ptr(v)
                if base is not None:
                    b = base[1] if base[0] == "addr" else ("D", base)
                    if b[0] == "I":
                        out.append((s, ("I", b[1], add(b[2], off))))
                    else:
                        out.append((s, ("I", b, off)))
                else:
                    out.append((s, ("D", v)))
            else:
                if v == NULL:
                    s.ghost.setdefault("null", (self.file, e.get("l", 0)))
                out.append((s, ("D", v)))
        return out

    def rv(self, s, l, t):
        return self.read(s, l, t)

    def evs(self, es, st, fr, refs=None):
        """evaluate a list of expressions left to right -> [(state, [values])]"""
        acc = [(st, [])]
        for i, e in enumerate(es):
            nxt = []
            for s, vs in acc:
                for s2, v in self.ev(e, s, fr):
                    nxt.append((s2, vs + [v]))
            acc = nxt
        return acc

    def ev(self, e, st, fr):
        """[(state, term)]"""
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("step budget exceeded in " + "/".join(self.stack))
        k = e["k"]
        t = e.get("t")
        cv = e.get("cv")
        if cv is not None and k in ("cast", "bin", "un", "sizeof", "cond", "call", "mem", "ref", "defarg") and \
                (is_int(t) or strip_t(t or "") in self.prog.enums):
            try:
                return [(st, c(int(cv)))]
            except ValueError:
                pass
        if k == "int":
            return [(st, c(int(e["v"])))]
        if k == "bool":
            return [(st, c(1 if e["v"] else 0))]
        if k == "float":
            return [(st, ("f", e.get("v")))]
        if k == "str":
            return [(st, ("s", e["v"]))]
        if k == "null":
            return [(st, NULL)]
        if k == "this":
            return [(st, ("addr", fr.this) if fr.this is not None else ("v", "this"))]
        if k == "ref":
            dk = e.get("dk")
            if dk == "enum":
                return [(st, c(int(e["v"])))]
            if dk == "func":
                return [(st, ("addr", ("G", "fn:" + (e.get("q") or e.get("fn") or e["n"]))))]
            if e.get("v") is not None and is_int(t):
                return [(st, c(int(e["v"])))]
            out = []
            for s, l in self.lv(e, st, fr):
                out.append((s, self.rvalue(s, l, t)))
            return out
        if k in ("mem", "idx"):
            return [(s, self.rvalue(s, l, t)) for s, l in self.lv(e, st, fr)]
        if k == "un":
            return self.ev_un(e, st, fr)
        if k == "bin":
            return self.ev_bin(e, st, fr)
        if k == "assign":
            return [(s, self.rvalue(s, l, t)) for s, l in self.do_assign(e, st, fr)]
        if k == "cond":
            out = []
            for s, v in self.ev(e["c"], st, fr):
                for s2, b in self.decide(s, v, e["c"]):
                    out += self.ev(e["a"] if b else e["b"], s2, fr)
            return out
        if k == "cast":
            return self.ev_cast(e, st, fr)
        if k == "call":
            return [(s, self.load(s, v, t)) for s, v in self.ev_call(e, st, fr)]
        if k == "construct":
            return self.ev_construct(e, st, fr)
        if k == "defarg":
            return self.ev(e["e"], st, fr)
        if k == "lambda":
            return self.ev_lambda(e, st, fr)
        if k == "new":
            return self.ev_new(e, st, fr)
        if k == "delete":
            out = []
            for s, v in self.ev(e["e"], st, fr):
                s.events = s.events + (Event("delete", None, v, (), None, e.get("l", 0), self.file, e),)
                if v is not None and v[0] == "addr":
                    s.ghost[("dead", v[1])] = e.get("l", 0)
                out.append((s, op("void")))
            return out
        if k == "assert":
            return [(st, op("void"))]
        if k == "sizeof":
            if cv is not None:
                return [(st, c(int(cv)))]
            return [(st, self.typed(op("sizeof", ("s", str(e.get("ty", t)))), "unsigned long"))]
        if k == "init":
            return self.ev_init(e, st, fr)
        if k == "zero":
            if is_int(t) or strip_t(t or "") in self.prog.enums:
                return [(st, ZERO)]
            if is_ptr(t):
                return [(st, NULL)]
            return [(st, op("zero", ("s", strip_t(t))))]
        if k == "throw":
            return [(st, ("throw",))]
        if k == "typeid":
            return [(st, op("typeid"))]
        if k == "stmtexpr":
            out = []
            res = self.ex(e["b"], st, fr)
            for s in res["next"]:
                out.append((s, self.fresh("stmtexpr", t)))
            return out
        if k == "other" or k == "recovery":
            a = e.get("a") or []
            if len(a) == 1:
                return self.ev(a[0], st, fr)
            return [(s, self.fresh(k, t)) for s, _ in self.evs(a, st, fr)]
        raise Unsupported("expression " + k)

    def load(self, s, v, t):
        if v is not None and v[0] == "ref":
            return self.rvalue(s, v[1], t)
        return v

    def rvalue(self, s, l, t):
        if t and self.is_record(t):
            v = s.store.get(l)
            if v is not None and v[0] == "ref":
                return v
            return ("ref", l)
        return self.read(s, l, t)

    def ev_init(self, e, st, fr):
        t = strip_t(e.get("t", ""))
        a = e.get("a") or []
        r = self.record(t)
        out = []
        for s, vs in self.evs(a, st, fr):
            if r is not None:
                l = self.temp(t)
                s.ghost["built"] = s.ghost.get("built", frozenset()) | {l}
                for f, v in zip(r["fields"], vs):
                    self.set_field(s, ("F", l, f["n"]), v, f["t"])
                out.append((s, ("ref", l)))
            elif len(a) == 1 and (is_int(t) or is_ptr(t)):
                out.append((s, vs[0]))
            elif len(a) == 0 and is_int(t):
                out.append((s, ZERO))
            else:
                if t.startswith("std::array<") and len(vs) == 1 and vs[0][0] == "op" and vs[0][1] == "list":
                    # the array member inside std::array; missing initialisers are zero
                    vs = list(vs[0][2:])
                    n = "".join(ch for ch in _seq.targs(t)[-1] if ch.isdigit())
                    et = _seq.elem_type(t)
                    if n and is_int(et):
                        vs += [ZERO] * (int(n) - len(vs))
                out.append((s, op("list", *vs)))
        return out

    def set_field(self, s, loc, v, t):
        if v is not None and v[0] == "ref":
            if t and strip_t(t) != t and t.rstrip().endswith("&"):
                s.refs[loc] = v[1]
                return
            if self.is_record(t):
                self.copy_object(s, v[1], loc, t)
                return
        s.store[loc] = v

    def ev_new(self, e, st, fr):
        out = []
        init = e.get("init")
        acc = [(st, [])]
        if e.get("place"):
            acc = self.evs(e["place"], st, fr)
        for s0, pl in acc:
            if init is None:
                l = self.temp(e.get("ty"))
                s0.events = s0.events + (Event("new", e.get("ty"), None, tuple(pl), ("addr", l), e.get("l", 0), self.file, e),)
                out.append((s0, ("addr", l)))
                continue
            for s, v in self.ev(init, s0, fr):
                if v is not None and v[0] == "ref":
                    l = v[1]
                else:
                    l = self.temp(e.get("ty"))
                    s.store[l] = v
                if pl and pl[0][0] == "addr":
                    # placement new: the object lives at the given address
                    tl = pl[0][1]
                    if self.is_record(e.get("ty") or "") and l not in s.store:
                        self.copy_object(s, l, tl, e.get("ty"))
                    else:
                        s.store[tl] = s.store.get(l, v)
                    l = tl
                s.events = s.events + (Event("new", e.get("ty"), None, tuple(pl), ("addr", l), e.get("l", 0), self.file, e),)
                out.append((s, ("addr", l)))
        return out

    def ev_un(self, e, st, fr):
        o = e["op"]
        x = e["e"]
        t = e.get("t")
        if o == "&":
            out = []
            for s, l in self.lv(x, st, fr):
                if l[0] == "P":
                    out.append((s, ("ptr", l[1], l[2])))
                elif l[0] == "D":
                    out.append((s, l[1]))
                elif l[0] == "I" and l[1][0] == "D":
                    out.append((s, add(l[1][1], l[2])))
                    self.typed(l[1][1], t)
                else:
                    out.append((s, ("addr", l)))
            return out
        if o == "*":
            return [(s, self.rvalue(s, l, t)) for s, l in self.ptr_loc(x, st, fr)]
        if o in ("++", "--"):
            return [(s, self.rvalue(s, l, t)) for s, l in self.lv(e, st, fr)]
        if o in ("p++", "p--"):
            out = []
            for s, l in self.lv(x, st, fr):
                v = self.read(s, l, x.get("t"))
                nv = self.arith(s, "+" if o == "p++" else "-", v, ONE, x.get("t"))
                self.write(s, l, nv, e, fr)
                out.append((s, v))
            return out
        out = []
        for s, v in self.ev(x, st, fr):
            if o == "!":
                out.append((s, not_(self.as_bool(v, x.get("t")))))
            elif o == "-":
                if v[0] == "f" or strip_t(t) in ("double", "float"):
                    out.append((s, op("neg", v) if _flt.num(v) is None else _flt.val(-_flt.num(v))))
                else:
                    out.append((s, self.norm(s, neg(v), t)))
            elif o == "+":
                out.append((s, v))
            elif o == "~":
                rg = self.int_range(t)
                if v[0] == "c" and rg:
                    out.append((s, self.norm(s, c(~v[1]), t)))
                elif self.bits and _bits.inv(self, s, v, t) is not None:
                    out.append((s, _bits.inv(self, s, v, t)))
                else:
                    out.append((s, self.typed(op("~", v), t)))
            else:
                out.append((s, self.typed(op("un" + o, v), t)))
        return out

    def ev_bin(self, e, st, fr):
        o = e["op"]
        t = e.get("t")
        if o in ("&&", "||"):
            out = []
            for s, v in self.ev(e["x"], st, fr):
                for s2, b in self.decide(s, v, e["x"]):
                    if (o == "&&") != b:
                        out.append((s2, c(b)))
                    else:
                        for s3, w in self.ev(e["y"], s2, fr):
                            out.append((s3, self.as_bool(w, e["y"].get("t"))))
            return out
        if o == ",":
            out = []
            for s, _ in self.ev(e["x"], st, fr):
                out += self.ev(e["y"], s, fr)
            return out
        out = []
        for s, (x, y) in self.evs([e["x"], e["y"]], st, fr):
            tx = e["x"].get("t")
            if o in ("==", "!=", "<", "<=", ">", ">="):
                out.append((s, self.compare(s, o, x, y, tx)))
            elif strip_t(t) in ("double", "float", "long double"):
                if o in ("+", "*"):
                    x, y = sorted((x, y), key=repr)
                out.append((s, _flt.arith(o, x, y, strip_t(t)) or op("f" + o, x, y)))
            else:
                if self.mem and o in ("+", "-") and is_ptr(tx) and x[0] in ("ptr", "addr", "s"):
                    x = _mem.as_ptr(self, s, x, tx)
                    if x[0] == "ptr":
                        if is_ptr(e["y"].get("t")):
                            out.append((s, _mem.diff(self, s, x, _mem.as_ptr(self, s, y, e["y"].get("t")), tx)))
                        else:
                            out.append((s, _mem.move(self, s, x, y, tx, 1 if o == "+" else -1)))
                        continue
                if o in ("+", "-") and is_ptr(tx):
                    sz = self.pointee_size(tx)
                    if not is_ptr(e["y"].get("t")):
                        self.typed(x, tx)
                        out.append((s, add(x, y) if o == "+" else sub(x, y)))
                        continue
                if o == "+" and is_ptr(e["y"].get("t")):
                    self.typed(y, e["y"].get("t"))
                    out.append((s, add(x, y)))
                    continue
                if o in ("+", "-") and (x[0] in BOOLS or y[0] in BOOLS):
                    # comparisons added up: a case for each outcome
                    for s1, a in self.branch(s, x) if x[0] in BOOLS else [(s, None)]:
                        for s2, b in self.branch(s1, y) if y[0] in BOOLS else [(s1, None)]:
                            out += self.split_wrap(s2, self.arith(s2, o, x if a is None else c(a), y if b is None else c(b), t, e))
                    continue
                out += self.split_wrap(s, self.arith(s, o, x, y, t, e))
        return out

    def pointee_size(self, t):
        return 1

    def do_assign(self, e, st, fr):
        """[(state, loc)]"""
        o = e["op"]
        out = []
        tx = e["x"].get("t")
        # right side first when simple assignment
        for s, y in self.ev(e["y"], st, fr):
            for s2, l in self.lv(e["x"], s, fr):
                if o == "=":
                    if y[0] == "ref" and self.is_record(tx):
                        self.copy_object(s2, y[1], l, tx)
                    else:
                        self.write(s2, l, y, e, fr)
                else:
                    v = self.read(s2, l, tx)
                    bo = o[:-1]
                    if strip_t(tx) in ("double", "float"):
                        nv = _flt.arith(bo, v, y, strip_t(tx)) or op("f" + bo, v, y)
                    elif v[0] == "ptr":
                        nv = self.arith(s2, bo, v, y, tx, e)
                    elif is_ptr(tx):
                        self.typed(v, tx)
                        nv = add(v, y) if bo == "+" else sub(v, y)
                    else:
                        ct = e.get("ct") or tx
                        nv = self.arith(s2, bo, v, y, ct, e)
                        for s3, nv in self.split_wrap(s2, nv):
                            for s4, nv2 in self.split_wrap(s3, self.cast(s3, nv, tx, ct)):
                                self.write(s4, l, nv2, e, fr)
                                out.append((s4, l))
                        continue
                    self.write(s2, l, nv, e, fr)
                out.append((s2, l))
        return out

    def ev_cast(self, e, st, fr):
        ck = e.get("ck")
        to = e.get("to") or e.get("t")
        ft = e["e"].get("t")
        out = []
        for s, v in self.ev(e["e"], st, fr):
            if ck in ("IntegralCast",):
                out += self.split_wrap(s, self.cast(s, v, to, ft))
            elif ck in ("IntegralToBoolean", "PointerToBoolean"):
                out.append((s, self.as_bool(v, ft)))
            elif ck == "BitCast":
                if self.mem and v[0] in ("addr", "s"):
                    v = _mem.as_ptr(self, s, v, ft)
                if v[0] != "ptr":
                    self.typed(v, to)
                out.append((s, v))
            elif ck == "ToVoid":
                out.append((s, op("void")))
            elif ck == "Dynamic":
                out.append((s, self.dyncast(v, strip_t(to))))
            elif ck in ("IntegralToFloating", "FloatingToIntegral", "FloatingCast"):
                r = _flt.cast(ck, v, strip_t(to))
                out.append((s, r if r is not None else self.typed(op("fcast", ("s", strip_t(to)), v), to)))
            else:
                out.append((s, v))
        return out

    def derives(self, cls, base):
        todo, seen = [strip_t(cls)], set()
        while todo:
            k = todo.pop()
            if k == base:
                return True
            if k not in seen:
                seen.add(k)
                r = self.prog.records.get(k)
                todo += [strip_t(b) for b in r["bases"]] if r else []
        return False

    def dyncast(self, v, to):
        """dynamic cast of a pointer (raw or shared); decided when the object's class is known"""
        tgt = strip_t(to)
        if tgt.startswith("std::shared_ptr<"):
            tgt = strip_t(tgt[len("std::shared_ptr<"):-1])
        tgt = strip_t(tgt.rstrip("*& "))
        if v is not None and v[0] == "addr" and v[1][0] == "T" and len(v[1]) > 2 and v[1][2] and self.prog.records.get(strip_t(v[1][2])):
            return v if self.derives(v[1][2], tgt) else NULL
        if v == NULL:
            return NULL
        return self.typed(op("dyncast", ("s", strip_t(to)), v), to)

    # ------------------------------------------------------------ calls
    def ev_construct(self, e, st, fr):
        cls = strip_t(e.get("cls") or e.get("t"))
        full = strip_t(e.get("t") or cls)
        args = e.get("a") or []
        h = self.handlers.get("ctor:" + cls)
        if h is None and cls in ("paimon::Status", "paimon::Result") and cls[8:] not in self.raw:
            return self.construct_status(e, st, fr)
        if h is not None:
            r = h(self, e, st, fr)
            if r is not NotImplemented:
                return r
        if self.is_record(full) and not full.startswith("std::"):
            if (e.get("copy") or e.get("move")) and len(args) >= 1:
                f = self.prog.by_id.get(e.get("id"))
                if f is None or f.get("body") is None:
                    out = []
                    for s, l in self.lv(args[0], st, fr):
                        if args[0]["k"] in ("construct", "init") and l[0] == "T":
                            out.append((s, ("ref", l)))
                            continue
                        d = self.temp(full)
                        self.copy_object(s, l, d, full)
                        if e.get("move"):
                            pass
                        out.append((s, ("ref", d)))
                    return out
            return self.inline_ctor(e, full, args, st, fr)
        # std and other opaque classes: functional values
        if (e.get("copy") or e.get("move")) and len(args) >= 1:
            out = []
            for s, l in self.lv(args[0], st, fr):
                v = self.read(s, l, args[0].get("t"))
                if e.get("move") and full.startswith("std::unique_ptr") and self._root(l)[0] != "T":
                    s.store[l] = NULL
                if self.seq and not e.get("move"):
                    v = _seq.clone(self, s, v)
                elif self.seq and e.get("move") and v[0] == "op" and v[1] == "seq" and self._root(l)[0] != "T":
                    s.store[l] = op("empty", ("s", full.split("<")[0]))
                out.append((s, v))
            return out
        short = cls.split("<")[0]
        out = []
        for s, vs in self.evs(args, st, fr):
            if short.endswith("iterator") and len(vs) == 1 and _seq.is_it(_seq.load(self, s, vs[0])):
                out.append((s, _seq.load(self, s, vs[0])))
            elif short in ("std::shared_ptr", "std::unique_ptr", "std::basic_string_view", "std::function", "std::reference_wrapper", "std::weak_ptr") and vs:
                v = vs[0]
                if short == "std::basic_string_view" and len(vs) == 2 and self.mem:
                    v = _mem.strview(self, s, _mem.as_ptr(self, s, vs[0], args[0].get("t")), vs[1])
                elif short == "std::basic_string_view" and len(vs) == 2:
                    v = op("strview", vs[0], vs[1])
                if short == "std::reference_wrapper":
                    if strip_t(args[0].get("t", "")).startswith("std::reference_wrapper"):
                        v = self.read(s, v[1], None) if v[0] == "ref" else v
                    elif v[0] == "ref":
                        v = ("addr", v[1])
                out.append((s, v))
            elif short in ("std::shared_ptr", "std::unique_ptr", "std::function", "std::weak_ptr"):
                out.append((s, NULL))
            elif short == "std::optional":
                if not vs:
                    out.append((s, ("none",)))
                else:
                    a0 = strip_t(args[0].get("t", ""))
                    if a0 == "std::nullopt_t":
                        out.append((s, ("none",)))
                    elif a0.startswith("std::optional<"):
                        out.append((s, vs[0]))
                    else:
                        out.append((s, ("some", vs[0])))
            elif short == "std::basic_string" and len(vs) >= 1 and vs[0][0] == "s" and \
                    (len(vs) == 1 or strip_t(args[1].get("t", "")).startswith("std::allocator")):
                out.append((s, vs[0]))
            elif self.mem and short == "std::basic_string" and vs and vs[0][0] == "ptr" and \
                    all(a.get("k") == "defarg" or strip_t(a.get("t", "")).startswith("std::allocator") for a in args[1:]):
                q = _mem.as_ptr(self, s, vs[0], args[0].get("t"))
                bs = _mem.get(self, s, q[1], q[2], _mem.extent(self, s, q[1]) - q[2])
                n = next((i for i, b in enumerate(bs) if _mem.const(self, s, b) == 0), len(bs))
                out.append((s, _seq.mkstr([_mem.join(self, s, [b], "char") for b in bs[:n]])))
            elif short == "std::basic_string" and len(vs) == 2 and args[1].get("k") == "defarg":
                out.append((s, vs[0]))
            elif short == "std::pair" and len(vs) == 2:
                out.append((s, op("pair", vs[0], vs[1])))
            elif short in ("std::lock_guard", "std::unique_lock", "std::shared_lock", "std::scoped_lock"):
                mloc = None
                out.append((s, op("guard", *[self._lockarg(s, a, fr, v) for a, v in zip(args, vs)])))
            elif not vs:
                out.append((s, op("empty", ("s", short))))
            else:
                # drop defaulted allocator arguments
                vs2 = [v for v, a in zip(vs, args) if a.get("k") != "defarg"]
                if len(vs2) == 1 and vs2[0][0] == "op" and vs2[0][1] == "list":
                    out.append((s, vs2[0]))
                elif self.mem and short == "std::basic_string" and len(vs2) == 2 and strip_t(args[0].get("t", "")) in INT and _mem.const(self, s, vs2[0]) is not None:
                    out.append((s, _seq.mkstr([vs2[1]] * _mem.const(self, s, vs2[0]))))
                elif short in ("std::basic_string", "std::vector") and strip_t(args[0].get("t", "")) in INT:
                    out.append((s, op("fill", *vs2)))
                elif self.mem and short == "std::basic_string" and len(vs2) == 2 and strip_t(args[1].get("t", "")) in INT and \
                        is_ptr(args[0].get("t", "")):
                    out.append((s, _mem.strview(self, s, _mem.as_ptr(self, s, vs2[0], args[0].get("t")), vs2[1])))
                elif short == "std::basic_string" and len(vs2) == 2 and strip_t(args[1].get("t", "")) in INT and \
                        is_ptr(args[0].get("t", "")):
                    out.append((s, op("strview", *vs2)))
                else:
                    out.append((s, op("new:" + short, *vs2)))
        return out

    def _lockarg(self, s, a, fr, v):
        r = self.lv(a, s, fr)
        return ("addr", r[0][1]) if r else v

    def construct_status(self, e, st, fr):
        args = e.get("a") or []
        cls = strip_t(e.get("cls"))
        if not args:
            return [(st, OK)]
        out = []
        if cls == "paimon::Status":
            if e.get("copy") or e.get("move"):
                for s, l in self.lv(args[0], st, fr):
                    v = self.read(s, l, "paimon::Status")
                    out.append((s, v))
                return out
            for s, vs in self.evs(args, st, fr):
                out.append((s, ("err", show(vs[0]))))
            return out
        # Result<T>
        at = strip_t(args[0].get("t", ""))
        for s, l in self.lv(args[0], st, fr):
            v = self.read(s, l, args[0].get("t"))
            if at == "paimon::Status" or at.startswith("paimon::Result<"):
                out.append((s, v))
            else:
                if self.is_record(at):
                    v = ("ref", l)
                out.append((s, ("okv", v)))
        return out

    def inline_ctor(self, e, cls, args, st, fr, loc=None):
        f = self.prog.by_id.get(e.get("id"))
        out = []
        short = cls
        for s, vs in self.ev_args(f, e, args, st, fr):
            l = loc or self.temp(cls)
            s.ghost["built"] = s.ghost.get("built", frozenset()) | {l}
            if f is None or f.get("body") is None or fr.depth >= self.max_depth or \
                    (self.policy and self.policy(e, f) == "opaque") or e.get("fn") in self.opaque:
                if not args or (f is None and not args):
                    self.default_fields(s, l, cls, fr)
                s.events = s.events + (Event("construct", cls, ("addr", l), tuple(vs), ("ref", l), e.get("l", 0), self.file, e),)
                self.callees.add(e.get("fn") or cls)
                out.append((s, ("ref", l)))
                continue
            s.events = s.events + (Event("construct", cls, ("addr", l), tuple(vs), ("ref", l), e.get("l", 0), self.file, e),)
            for kind, s2, v in self.run_fn(f, s, l, vs, fr, e):
                if kind in ("next", "return"):
                    out.append((s2, ("ref", l)))
        return out

    def default_fields(self, s, l, cls, fr):
        r = self.record(cls)
        if r is None:
            return
        for b in r["bases"]:
            self.default_fields(s, l, strip_t(b), fr)
        for f in r["fields"]:
            if f.get("init") is not None:
                res = self.ev(f["init"], s, fr)
                if len(res) == 1:
                    self.set_field(s, ("F", l, f["n"]), res[0][1], f["t"])
            elif strip_t(f["t"]).startswith(("std::shared_ptr", "std::unique_ptr")):
                s.store[("F", l, f["n"])] = NULL
            elif strip_t(f["t"]).startswith("std::optional"):
                s.store[("F", l, f["n"])] = ("none",)
            elif strip_t(f["t"]).startswith("std::"):
                s.store[("F", l, f["n"])] = op("empty", ("s", strip_t(f["t"]).split("<")[0]))

    def ev_args(self, f, e, args, st, fr):
        """evaluate call arguments: reference parameters as ('ref', loc)"""
        pm = e.get("pm") or []
        acc = [(st, [])]
        for i, a in enumerate(args):
            mode = pm[i] if i < len(pm) else "v"
            nxt = []
            for s, vs in acc:
                if mode in ("r", "x", "c"):
                    for s2, l in self.lv(a, s, fr):
                        nxt.append((s2, vs + [("ref", l)]))
                else:
                    for s2, v in self.ev(a, s, fr):
                        nxt.append((s2, vs + [v]))
            acc = nxt
        return acc

    def argval(self, s, v, t=None):
        """value of an evaluated argument (loads through references)"""
        if v is not None and v[0] == "ref":
            l = v[1]
            if l in s.store:
                return s.store[l]
            if t is None or not self.is_record(t):
                if any(k != l and under(k, l) for k in s.store):
                    return v
                if t is not None:
                    return self.read(s, l, t)
                if l[0] in ("T",):
                    return v
                return self.read(s, l, t)
        return v

    def ev_call(self, e, st, fr):
        fn = e.get("fn") or ""
        args = e.get("a") or []
        if fn == "__builtin_expect":
            return self.ev(args[0], st, fr)
        h = self.handlers.get(fn)
        if h is None and fn.startswith("std::") and fn.split("<")[0].rsplit("::", 1)[-1].startswith("~") and e.get("obj") is not None:
            out = []
            for s, l in (self.ptr_loc(e["obj"], st, fr) if e.get("arrow") else self.lv(e["obj"], st, fr)):
                s.events = s.events + (Event("call", fn, ("addr", l), (), None, e.get("l", 0), self.file, e),)
                out.append((s, op("void")))
            return out
        if h is None and fn.startswith("std::reference_wrapper::operator ") and e.get("obj") is not None:
            h = h_refwrap
        if h is None and fn.startswith(("std::", "__gnu_cxx::")):
            h = std_handler(fn)
        if h is not None:
            r = h(self, e, st, fr)
            if r is not NotImplemented:
                return r
        # lambdas and std::function
        if (e.get("oper") == "()" or fn.endswith("::operator()")) and not (fn.startswith("paimon::") and any(g.get("body") for g in self.prog.fns(fn))):
            r = self.call_lambda(e, st, fr)
            if r is not None:
                return r
        if (fn.startswith("paimon::Status::") and "Status" not in self.raw) or \
                (fn.startswith("paimon::Result::") and "Result" not in self.raw):
            r = self.status_call(e, st, fr)
            if r is not NotImplemented:
                return r
        if fn == "paimon::internal::GenericToStatus" and not self.raw:
            return self.ev(args[0], st, fr)
        f = self.prog.by_id.get(e.get("id"))
        out = []
        objs = [(st, None)]
        if e.get("obj") is not None:
            ot = strip_t(e["obj"].get("t", ""))
            if e.get("arrow") or ot.endswith("*"):
                objs = self.ptr_loc(e["obj"], st, fr)
            else:
                objs = self.lv(e["obj"], st, fr)
        implicit = fn.endswith("::operator=") and len(args) == 1 and (f is None or f.get("body") is None) and e.get("obj") is not None and \
            self.is_record(e["obj"].get("t", "")) and strip_t(args[0].get("t", "")) == strip_t(e["obj"].get("t", ""))
        for s0, ol in objs:
            for s, vs in self.ev_args(f, e, args, s0, fr):
                if implicit and vs[0][0] == "ref":
                    # implicitly defined member-wise assignment
                    if vs[0][1] != ol:
                        self.copy_object(s, vs[0][1], ol, e["obj"]["t"])
                        self.record_writes(s, ol, e)
                    out.append((s, ("ref", ol)))
                    continue
                out += self.apply(e, f, s, ol, vs, fr)
        return out

    def record_writes(self, s, l, e):
        if self.track_writes and self._root(l)[0] not in ("V", "T"):
            s.events = s.events + (Event("write", None, l, (("ref", l),), None, e.get("l", 0), self.file, e),)

    def ev_lambda(self, e, st, fr):
        """closure object: a frame of its own holds what is captured by copy"""
        self.n += 1
        cf = Frame(self.n, fr.fn, fr.this, fr, fr.depth, fr.file)
        self.lams.append((e, cf))
        i = len(self.lams) - 1
        sts = [st]
        for cap in e.get("caps") or []:
            if cap.get("kind") != "copy" or not cap.get("d"):
                continue
            t = (cap.get("t") or "").rstrip(" &")
            nxt = []
            for s in sts:
                vals = self.ev(cap["init"], s, fr) if cap.get("init") is not None else [(s, ("ref", self.var_loc(s, fr, cap["d"])))]
                for s2, v in vals:
                    l = self.declare(s2, cf, cap["d"])
                    if v is not None and v[0] == "ref":
                        if self.is_record(t):
                            self.copy_object(s2, v[1], l, t)
                            nxt.append(s2)
                            continue
                        v = self.read(s2, v[1], t)
                    s2.store[l] = _seq.clone(self, s2, v) if self.seq else v
                    nxt.append(s2)
            sts = nxt
        return [(s, ("lam", i)) for s in sts]

    def call_lambda(self, e, st, fr):
        obj = e.get("obj")
        if obj is None:
            return None
        out = []
        for s, l in self.lv(obj, st, fr):
            v = s.store.get(l)
            if v is None and l[0] != "T":
                v = self.read(s, l, obj.get("t"))
            if v is not None and v[0] == "lam":
                lam, dfr = self.lams[v[1]]
                body = lam["def"]
                for s2, vs in self.ev_args(None, e, e.get("a") or [], s, fr):
                    for kind, s3, rv in self.run_body(body, s2, dfr.this, vs, fr, e, parent=dfr):
                        if kind == "throw":
                            continue
                        out.append((s3, rv if rv is not None else op("void")))
            else:
                for s2, vs in self.evs(e.get("a") or [], s, fr):
                    r = self.fresh("fn()", e.get("t"))
                    s2.events = s2.events + (Event("call", e.get("fn"), v, tuple(vs), r, e.get("l", 0), self.file, e, s2.facts),)
                    out.append((s2, r))
        return out

    def status_call(self, e, st, fr):
        fn = e["fn"]
        m = fn.rsplit("::", 1)[1]
        args = e.get("a") or []
        obj = e.get("obj")
        if obj is None:
            if m == "OK":
                return [(st, OK)]
            if fn.startswith("paimon::Status::") and strip_t(e.get("t", "")) == "paimon::Status":
                out = []
                for s, vs in self.evs(args, st, fr):
                    out.append((s, ("err", m)))
                return out
            return NotImplemented
        out = []
        for s, l in self.lv(obj, st, fr):
            v = self.read(s, l, obj.get("t"))
            if m == "ok":
                if v[0] in ("ok", "okv"):
                    out.append((s, ONE))
                elif v[0] == "err":
                    out.append((s, ZERO))
                else:
                    out.append((s, self.typed(op("isok", v), "bool")))
            elif m.startswith("Is"):
                out.append((s, self.typed(op("is:" + m, v), "bool") if v[0] != "err" else c(m[2:] == v[1])))
            elif m == "status":
                out.append((s, OK if v[0] == "okv" else v))
            elif m in ("value", "ValueOrDie", "operator*"):
                if v[0] == "okv":
                    out.append((s, v[1]))
                else:
                    t = strip_t(e.get("t", ""))
                    w = self.typed(op("val", v), t)
                    if self.is_record(t):
                        out.append((s, ("ref", ("D", w))))
                    else:
                        out.append((s, w))
                s.events = s.events + (Event("value", fn, v, (), None, e.get("l", 0), self.file, e, s.facts),)
            elif m in ("operator=",):
                for s2, w in self.ev(args[0], s, fr):
                    at = strip_t(args[0].get("t", ""))
                    self.write(s2, l, w if (at == "paimon::Status" or at.startswith("paimon::Result<") or fn.startswith("paimon::Status")) else ("okv", w), e, fr)
                    out.append((s2, w))
            elif m in ("ToString", "message", "CodeAsString", "code", "detail", "WithMessage", "MoveValue", "value_or"):
                for s2, vs in self.evs(args, s, fr):
                    if m == "WithMessage":
                        out.append((s2, v))
                    else:
                        out.append((s2, self.typed(op("st:" + m, v), e.get("t"))))
            else:
                return NotImplemented
        return out

    def apply(self, e, f, s, ol, vs, fr):
        """call with evaluated object location and arguments"""
        fn = e.get("fn") or ""
        self._count(1)
        virt = e.get("virt") and not e.get("nonvirt")
        pol = self.policy(e, f) if self.policy else None
        ok = f is not None and f.get("body") is not None and pol != "opaque" and fn not in self.opaque
        if virt and ol is not None and ol[0] == "T" and len(ol) > 2 and ol[2] and pol != "opaque" and fn not in self.opaque:
            g = self.resolve_virtual(ol[2], e, f)
            if g is not None:
                f = g
                ok = True
        if ok and virt and pol != "inline":
            # a virtual call is analysed only when the object is `this` or a
            # freshly built object of known class
            ok = ol is not None and (ol == fr.this or (ol[0] == "T"))
        if ok and (fr.depth >= self.max_depth or self.stack.count(f["id"]) >= self.recursion):
            ok = False
        if ok:
            self.inlined.add(f["id"])
            s.events = s.events + (Event("enter", fn, ol, tuple(vs), None, e.get("l", 0), self.file, e),)
            out = []
            for kind, s2, v in self.run_fn(f, s, ol, vs, fr, e):
                if kind == "throw":
                    if self.call_throw:
                        out.append((s2, ("throw",)))
                    continue
                s2.events = s2.events + (Event("leave", fn, ol, (), v, e.get("l", 0), self.file, e),)
                out.append((s2, v if v is not None else op("void")))
            return out
        return self.opaque_call(e, s, ol, vs, fr)

    def resolve_virtual(self, cls, e, decl=None):
        want = [strip_t(q.get("t", "")) for q in decl.get("params") or []] if decl is not None else None
        name = (e.get("fn") or "").rsplit("::", 1)[-1]
        np = len(e.get("a") or [])
        seen = set()
        todo = [strip_t(cls)]
        while todo:
            k = todo.pop(0)
            if k in seen:
                continue
            seen.add(k)
            fs = [f for f in self.prog.fns(k.split("<")[0] + "::" + name) if len(f.get("params") or []) == np and not f.get("dep")]
            if want is not None and len(fs) > 1:
                fs = [f for f in fs if [strip_t(q.get("t", "")) for q in f["params"]] == want] or fs
            if fs:
                return fs[0]
            r = self.prog.records.get(k)
            if r:
                todo += r["bases"]
        return None

    def opaque_call(self, e, s, ol, vs, fr):
        fn = e.get("fn") or ""
        self.callees.add(fn)
        t = e.get("t")
        ts = strip_t(t or "")
        pm = e.get("pm") or []
        args = e.get("a") or []
        const_m = e.get("const") or False
        avs = tuple(self.argval(s, v, a.get("t")) if v is not None and v[0] == "ref" and (i >= len(pm) or pm[i] != "r") else v
                    for i, (v, a) in enumerate(zip(vs, args)))
        ev = Event("call", fn, ol, avs, None, e.get("l", 0), self.file, e, s.facts.copy())
        nonconst_args = any(i < len(pm) and pm[i] in ("r", "p") for i in range(len(args)))
        if const_m and not nonconst_args and ol is not None and not e.get("io") and not e.get("virt"):
            res = op("call", fn, ol, c(self.epoch(s, ol)), *avs)
        else:
            self.n += 1
            res = ("v", "%s#%d" % (fn.rsplit("::", 1)[-1], self.n))
        if not const_m and ol is not None and e.get("obj") is not None and not e.get("static"):
            self.havoc(s, ol)
        for i, v in enumerate(vs):
            if i < len(pm) and v is not None:
                if pm[i] == "r" and v[0] == "ref":
                    self.havoc(s, v[1])
                elif pm[i] == "p" and v[0] == "addr":
                    self.havoc(s, v[1])
                elif pm[i] == "p" and v[0] == "ptr":
                    _mem.put(self, s, v[1], 0, [self.fresh("byte", "unsigned char") for _ in range(_mem.extent(self, s, v[1]))])
                elif pm[i] == "p" and v[0] in ("v", "in", "op"):
                    self.havoc(s, ("D", v))
        if ts == "void" or not ts:
            val = op("void")
        else:
            self.typed(res, t)
            val = res
            if self.is_record(ts) or (t and t.rstrip().endswith("&") and not ts.endswith("*")):
                val = ("ref", ("D", res))
        ev.res = res
        s.events = s.events + (ev,)
        if self.on_call:
            self.on_call(self, s, ev, fr)
        return [(s, val)]

    def run_fn(self, f, s, this, vs, fr, e):
        return self.run_body(f, s, this, vs, fr, e)

    def run_body(self, f, s, this, vs, fr, e, parent=None):
        """analyse a function body in context -> [(kind, state, value)]"""
        self.n += 1
        nf = Frame(self.n, f.get("fn"), this, parent, (fr.depth if fr else 0) + 1, f.get("file", self.file))
        rt = f.get("ret") or ""
        nf.retref = rt.rstrip().endswith("&")
        self.stack.append(f.get("id") or f.get("fn") or "?")
        if len(self.stack) > 60:
            raise Budget("call depth")
        oldfile = self.file
        self.file = f.get("file", self.file)
        try:
            params = f.get("params") or []
            for i, p in enumerate(params):
                l = self.declare(s, nf, p["d"])
                v = vs[i] if i < len(vs) else self.fresh("arg:" + p.get("n", "?"), p["t"])
                if v is None:
                    continue
                pt = p["t"].rstrip()
                if v[0] == "ref":
                    if pt.endswith("&"):
                        s.refs[l] = v[1]
                    elif self.is_record(pt):
                        self.copy_object(s, v[1], l, pt)
                    else:
                        s.store[l] = self.read(s, v[1], pt)
                elif pt.endswith("&"):
                    tl = self.temp(strip_t(pt))
                    s.store[tl] = v
                    s.refs[l] = tl
                else:
                    s.store[l] = v
            depth = len(s.scopes)
            outs = [s]
            results = []
            if f.get("fk") == "ctor":
                outs = self.run_inits(f, s, nf)
            body = f.get("body")
            for s1 in outs:
                if body is None:
                    results.append(("next", s1, None))
                    continue
                r = self.ex(body, s1, nf)
                for s2 in r["next"]:
                    results.append(("return", s2, None))
                for s2, v in r["return"]:
                    results.append(("return", s2, v))
                for s2 in r["throw"]:
                    results.append(("throw", s2, None))
            out = []
            for kind, s2, v in results:
                for s3 in self.unwind(s2, depth, nf, v):
                    out.append((kind, s3, v))
            if len(out) > self.max_paths:
                raise Budget("too many paths in %s" % f.get("fn"))
            return out
        finally:
            self.file = oldfile
            self.stack.pop()

    def run_inits(self, f, s, nf):
        acc = [s]
        this = nf.this
        # default member initialisers come as unwritten inits in the dump
        for i in f.get("inits") or []:
            nxt = []
            for st in acc:
                e = i.get("e")
                if e is None:
                    nxt.append(st)
                    continue
                if i.get("f"):
                    loc = ("F", this, self.unions.get(i.get("q"), i["f"]))
                    ft = self.field_type(nf, i)
                    ek = e
                    if ft and ft.rstrip().endswith("&"):
                        for s2, l in self.lv(e, st, nf):
                            s2.refs[loc] = l
                            nxt.append(s2)
                        continue
                    if e["k"] == "construct" and self.is_record(e.get("t")) and not (e.get("copy") or e.get("move")):
                        for s2, v in self.inline_ctor(e, strip_t(e.get("t")), e.get("a") or [], st, nf, loc=loc):
                            nxt.append(s2)
                        continue
                    for s2, v in self.ev(e, st, nf):
                        self.set_field(s2, loc, v, e.get("t"))
                        nxt.append(s2)
                elif i.get("base"):
                    if e["k"] == "construct" and self.prog.by_id.get(e.get("id")):
                        for s2, v in self.inline_ctor(e, strip_t(e.get("t")), e.get("a") or [], st, nf, loc=this):
                            nxt.append(s2)
                    else:
                        if e["k"] == "construct" and not e.get("a"):
                            self.default_fields(st, this, strip_t(e.get("t")), nf)
                        nxt.append(st)
                elif i.get("deleg"):
                    for s2, v in self.inline_ctor(e, strip_t(e.get("t")), e.get("a") or [], st, nf, loc=this):
                        nxt.append(s2)
                else:
                    nxt.append(st)
            acc = nxt
        return acc

    def field_type(self, nf, i):
        q = i.get("q") or ""
        cls = q.rsplit("::", 1)[0]
        r = self.prog.records.get(cls)
        if r:
            for x in r["fields"]:
                if x["n"] == i["f"]:
                    return x["t"]
        return None

    def static_loc(self, fr, v):
        return ("G", "static:%s:%s:%s" % (self.stack[-1] if self.stack else fr.fn, v["n"], v["d"]))

    # ------------------------------------------------------------ scopes
    def unwind(self, s, depth, fr, val=None):
        """leave the scopes above depth -> states; `val` is what the function returns"""
        work, out = [s], []
        while work:
            s = work.pop()
            if len(s.scopes) <= depth:
                out.append(s)
                continue
            loc, kind, line = s.scopes[-1]
            s.scopes = s.scopes[:-1]
            if kind == "lock":
                held = s.ghost.get(("guard", loc))
                if held:
                    s.locks = tuple(x for x in s.locks if x[2] != loc)
                    s.events = s.events + (Event("unlock", None, held, (), None, line, self.file),)
                s.ghost.pop(("guard", loc), None)
            elif kind == "scopeguard":
                s.events = s.events + (Event("scope_exit", None, loc, (), None, line, self.file),)
            elif val is None or val != ("ref", loc):
                for k, s2, _ in self.run_body(self.prog.by_id[kind[1]], s, loc, [], fr, {"k": "call", "a": [], "l": line}):
                    work.append(s2)
                continue
            work.append(s)
        return out

    def dtor_of(self, t):
        """user-written destructor of a class"""
        if self._dtors is None:
            self._dtors = {f.get("cls"): f for f in self.prog.by_id.values() if f.get("fk") == "dtor" and f.get("body")}
        return self._dtors.get(t)

    def enter_decl(self, s, fr, v, loc, val):
        t = strip_t(v["t"])
        if t.startswith(RAII_LOCKS):
            m = None
            if val is not None and val[0] == "op" and val[1] == "guard" and len(val) > 2:
                m = val[2]
            mode = "shared" if t.startswith("std::shared_lock") else "excl"
            deferred = val is not None and len(val) > 3 and "defer" in repr(val[3])
            s.scopes = s.scopes + ((loc, "lock", v.get("l", 0)),)
            s.ghost[("guardm", loc)] = (m, mode)
            if not deferred and m is not None:
                s.locks = s.locks + ((m[1] if m[0] == "addr" else m, mode, loc),)
                s.ghost[("guard", loc)] = m
                s.events = s.events + (Event("lock", mode, m, (), None, v.get("l", 0), self.file),)
                if self.on_lock:
                    self.on_lock(self, s, m[1] if m[0] == "addr" else m, mode)
        elif self.dtors and not t.startswith(("paimon::Status", "paimon::Result")) and not v["t"].rstrip().endswith("&") and self.dtor_of(t):
            s.scopes = s.scopes + ((loc, ("dtor", self.dtor_of(t)["id"]), v.get("l", 0)),)
        elif t == "paimon::ScopeGuard":
            s.scopes = s.scopes + ((loc, "scopeguard", v.get("l", 0)),)

    # ------------------------------------------------------------ statements
    def ex(self, n, st, fr):
        r = {"next": [], "break": [], "continue": [], "return": [], "throw": []}
        if n is None:
            r["next"].append(st)
            return r
        self._count(1)
        k = n["k"]
        m = getattr(self, "ex_" + k, None)
        if m is None:
            if k in ("otherstmt", "label"):
                if n.get("b"):
                    return self.ex(n["b"], st, fr)
                r["next"].append(st)
                return r
            raise Unsupported("statement " + k)
        m(n, st, fr, r)
        tot = len(r["next"])
        if tot > self.max_paths:
            raise Budget("too many paths in %s line %s" % (fr.fn, n.get("l")))
        return r

    def merge(self, r, x, skip=()):
        for k in r:
            if k not in skip:
                r[k] += x[k]

    def ex_comp(self, n, st, fr, r):
        depth = len(st.scopes)
        cur = [st]
        for x in n["s"]:
            nxt = []
            for s in cur:
                y = self.ex(x, s, fr)
                nxt += y["next"]
                self.merge(r, y, ("next",))
            cur = self.dedupe(nxt)
            if not cur:
                break
        r["next"] += cur
        r["next"] = [x for s in r["next"] for x in self.unwind(s, depth, fr)]
        r["break"] = [x for s in r["break"] for x in self.unwind(s, depth, fr)]
        r["continue"] = [x for s in r["continue"] for x in self.unwind(s, depth, fr)]

    def dedupe(self, states):
        """join states that differ only in facts (keep the common facts)"""
        if len(states) < 2:
            return states
        seen = {}
        out = []
        for s in states:
            key = (len(s.events), s.events[-1] if s.events else None, s.scopes, s.locks)
            for o in seen.get(key, ()):
                if o.store == s.store and o.refs == s.refs and o.epochs == s.epochs and o.events == s.events and \
                        set(o.ghost) == set(s.ghost):
                    if not self.join and (o.facts.lins, o.facts.neqs, o.facts.atoms) != (s.facts.lins, s.facts.neqs, s.facts.atoms):
                        continue
                    f = o.facts.copy()
                    f.lins = tuple(l for l in o.facts.lins if l in s.facts.lins or s.facts.entails_ge0(l))
                    f.neqs = o.facts.neqs & s.facts.neqs
                    f.atoms = {a: b for a, b in o.facts.atoms.items() if s.facts.atoms.get(a) == b}
                    o.facts = f
                    break
            else:
                seen.setdefault(key, []).append(s)
                out.append(s)
        return out

    def ex_null_stmt(self, n, st, fr, r):
        r["next"].append(st)

    def ex_expr(self, n, st, fr, r):
        e = n["e"]
        for s, v in self.ev(e, st, fr):
            if v is not None and v == ("throw",):
                r["throw"].append(s)
            else:
                r["next"].append(s)

    def ex_decl(self, n, st, fr, r):
        cur = [st]
        for v in n.get("vars") or []:
            nxt = []
            for s in cur:
                nxt += self.decl_var(v, s, fr)
            if self.exact_throw:
                r["throw"] += [s for s in nxt if s.store.get(self.var_loc(s, fr, v["d"])) == ("throw",)]
                nxt = [s for s in nxt if s.store.get(self.var_loc(s, fr, v["d"])) != ("throw",)]
            cur = nxt
        r["next"] += cur

    def decl_var(self, v, st, fr):
        init = v.get("init")
        out = []
        d = v["d"]
        if init is None and v.get("static") and (is_int(v["t"]) or strip_t(v["t"]).endswith("*")):
            # zero before the first call
            g = self.static_loc(fr, v)
            st.refs[self.declare(st, fr, d)] = g
            if g not in st.ghost.get("statics", ()):
                st.ghost["statics"] = st.ghost.get("statics", frozenset()) | {g}
                st.store[g] = NULL if strip_t(v["t"]).endswith("*") else ZERO
            return [st]
        if init is None:
            l = self.declare(st, fr, d)
            t = strip_t(v["t"])
            if self.mem and t.endswith("]") and _mem.size(self, t.split("[")[0]):
                n = int(t.split("[")[1][:-1]) * _mem.size(self, t.split("[")[0])
                st.store[l] = ("ptr", _mem.new_block(self, st, n, v.get("n", "arr")), 0)
                return [st]
            if t == "paimon::Status" and "Status" not in self.raw:
                st.store[l] = OK
            elif t.startswith("std::optional"):
                st.store[l] = ("none",)
            elif t.startswith(("std::shared_ptr", "std::unique_ptr")):
                st.store[l] = NULL
            elif t.startswith("std::"):
                st.store[l] = op("empty", ("s", t.split("<")[0]))
            return [st]
        if v.get("static"):
            # function-local static: one object, initialised once
            vl = self.declare(st, fr, d)
            g = self.static_loc(fr, v)
            st.refs[vl] = g
            if g in st.ghost.get("statics", ()):
                return [st]
            st.ghost["statics"] = st.ghost.get("statics", frozenset()) | {g}
            for s, val in self.ev(init, st, fr):
                if val is not None and val[0] == "ref" and self.is_record(v["t"]):
                    self.copy_object(s, val[1], g, v["t"])
                elif val is not None and val[0] == "ref":
                    s.store[g] = self.read(s, val[1], v["t"])
                elif val is not None:
                    s.store[g] = val
                out.append(s)
            return out
        if v.get("isref"):
            for s, l in self.lv(init, st, fr):
                vl = self.declare(s, fr, d)
                s.refs[vl] = l
                self.bindings(v, s, fr, l)
                out.append(s)
            return out
        for s, val in self.ev(init, st, fr):
            l = self.declare(s, fr, d)
            if val is not None and val[0] == "ref" and self.is_record(v["t"]):
                src = val[1]
                if src[0] == "T" and init["k"] in ("construct", "call", "init"):
                    s.refs[l] = src
                    l = src
                else:
                    self.copy_object(s, src, l, v["t"])
            elif val is not None and val[0] == "ref":
                s.store[l] = self.read(s, val[1], v["t"])
            else:
                s.store[l] = val
            self.enter_decl(s, fr, v, l, val)
            self.bindings(v, s, fr, l)
            out.append(s)
        return out

    def bindings(self, v, s, fr, l):
        for i, b in enumerate(v.get("bind") or []):
            bl = self.declare(s, fr, b["d"])
            t = strip_t(v["t"])
            if "std::pair" in t or "std::map" in t or len(v["bind"]) == 2:
                s.refs[bl] = ("F", l, "first" if i == 0 else "second")
            else:
                s.refs[bl] = ("F", l, "elem%d" % i)
            val = s.store.get(l)
            if val is not None and val[0] == "op" and val[1] in ("pair", "list", "new:std::tuple", "new:std::pair") and len(val) > 2 + i:
                s.store[s.refs[bl]] = val[2 + i]

    def ex_if(self, n, st, fr, r):
        cur = [st]
        depth = len(st.scopes)
        if n.get("init") is not None:
            x = self.ex(n["init"], st, fr)
            cur = x["next"]
            self.merge(r, x, ("next",))
        for s in cur:
            cs = [s]
            if n.get("cvar") is not None:
                x = self.ex(n["cvar"], s, fr) if n["cvar"].get("k") else {"next": self.decl_var(n["cvar"], s, fr)}
                cs = x["next"]
            for s1 in cs:
                for s2, v in self.ev(n["c"], s1, fr):
                    if v == ("throw",):
                        r["throw"].append(s2)
                        continue
                    for s3, b in self.decide(s2, v, n["c"]):
                        br = n.get("th") if b else n.get("el")
                        if br is None:
                            r["next"].append(s3)
                        else:
                            self.merge(r, self.ex(br, s3, fr))
        r["next"] = self.dedupe([x for s in r["next"] for x in self.unwind(s, depth, fr)])

    def ex_ret(self, n, st, fr, r):
        e = n.get("e")
        if e is None:
            r["return"].append((st, None))
            return
        if fr.retref:
            for s, l in self.lv(e, st, fr):
                r["return"].append((s, ("ref", l)))
            return
        for s, v in self.ev(e, st, fr):
            if v == ("throw",):
                r["throw"].append(s)
            else:
                r["return"].append((s, v))

    def ex_break(self, n, st, fr, r):
        r["break"].append(st)

    def ex_continue(self, n, st, fr, r):
        r["continue"].append(st)

    def ex_try(self, n, st, fr, r):
        # the handlers are entered from an unknown point of the block
        pre = st.copy()
        x = self.ex(n["b"], st, fr)
        self.merge(r, x, ("throw",))
        for h, s in [(h, s.copy()) for h in n.get("h") or [] for s in (x["throw"] if self.exact_throw else [pre])]:
            s.events = s.events + (Event("catch", None, None, (), None, n.get("l", 0), self.file),)
            b = h.get("b") if isinstance(h, dict) else None
            if b is not None:
                self.merge(r, self.ex(b, s, fr))

    def ex_catch(self, n, st, fr, r):
        if n.get("b"):
            self.merge(r, self.ex(n["b"], st, fr))
        else:
            r["next"].append(st)

    def ex_case(self, n, st, fr, r):
        self.merge(r, self.ex(n["b"], st, fr) if n.get("b") else {"next": [st], "break": [], "continue": [], "return": [], "throw": []})

    ex_default = ex_case

    def flatten(self, n, out):
        """switch body -> list of ('case', value expr) | ('default',) | ('stmt', node)"""
        if n is None:
            return
        if n["k"] == "case":
            out.append(("case", n["v"]))
            self.flatten(n.get("b"), out)
        elif n["k"] == "default":
            out.append(("default",))
            self.flatten(n.get("b"), out)
        else:
            out.append(("stmt", n))

    def ex_switch(self, n, st, fr, r):
        items = []
        b = n["b"]
        for x in (b["s"] if b["k"] == "comp" else [b]):
            self.flatten(x, items)
        depth = len(st.scopes)
        for s, v in self.ev(n["c"], st, fr):
            cases = [(i, x[1]) for i, x in enumerate(items) if x[0] == "case"]
            dflt = [i for i, x in enumerate(items) if x[0] == "default"]
            rest = s
            entry = []
            alive = True
            for i, ve in cases:
                cvs = self.ev(ve, rest, fr)[0][1]
                cond = self.compare(rest, "==", v, cvs, "int")
                tr = rest.facts.truth(cond)
                if tr is False:
                    continue
                s1 = rest.copy()
                if s1.facts.assume(cond, True):
                    entry.append((i, s1))
                if tr is True or not rest.facts.assume(cond, False):
                    alive = False
                    break
            if alive:
                if dflt:
                    entry.append((dflt[0], rest))
                else:
                    r["next"].append(rest)
            for i, s1 in entry:
                cur = [s1]
                for x in items[i:]:
                    if x[0] != "stmt":
                        continue
                    nxt = []
                    for s2 in cur:
                        y = self.ex(x[1], s2, fr)
                        nxt += y["next"]
                        r["next"] += y["break"]
                        self.merge(r, y, ("next", "break"))
                    cur = nxt
                    if not cur:
                        break
                r["next"] += cur
        r["next"] = self.dedupe([x for s in r["next"] for x in self.unwind(s, depth, fr)])

    # ------------------------------------------------------------ loops
    def ex_do(self, n, st, fr, r):
        cond = n["c"]
        cv = cond.get("cv")
        if cv == "0" or (cond.get("k") == "bool" and cond.get("v") is False):
            x = self.ex(n["b"], st, fr)
            r["next"] += x["next"] + x["break"] + x["continue"]
            self.merge(r, x, ("next", "break", "continue"))
            return
        self.loop(n, st, fr, r, cond=cond, inc=None, body=n["b"], post=True)

    def ex_while(self, n, st, fr, r):
        self.loop(n, st, fr, r, cond=n["c"], inc=None, body=n["b"], cvar=n.get("cvar"))

    def ex_for(self, n, st, fr, r):
        depth = len(st.scopes)
        cur = [st]
        if n.get("init") is not None:
            x = self.ex(n["init"], st, fr)
            cur = x["next"]
        for s in cur:
            self.loop(n, s, fr, r, cond=n.get("c"), inc=n.get("inc"), body=n["b"])
        r["next"] = [x for s in r["next"] for x in self.unwind(s, depth, fr)]

    def ex_rfor(self, n, st, fr, r):
        for s, rl in self.lv(n["range"], st, fr):
            val = s.store.get(rl)
            if self.seq:
                cs = _seq.cells(self, s, rl, n["range"].get("t"))
                if cs is None and val is not None:
                    cs = _seq.chars(val)
                if cs is not None and len(cs) <= 64:
                    self.unroll_list(n, s, fr, r, cs, rl)
                    continue
            if val is not None and val[0] == "op" and val[1] == "list" and len(val) - 2 <= 32:
                self.unroll_list(n, s, fr, r, list(val[2:]), rl)
                continue
            g = self.prog.globals.get(rl[1]) if rl[0] == "G" else None
            self.loop(n, s, fr, r, cond=None, inc=None, body=n["b"], rng=rl)

    def unroll_list(self, n, s, fr, r, elems, rl):
        cur = [s]
        for i, v in enumerate(elems):
            nxt = []
            for s1 in cur:
                vl = self.declare(s1, fr, n["var"]["d"])
                if v[0] == "ref" and self.seq and not n["var"].get("isref") and not n["var"].get("bind"):
                    _seq.assign(self, s1, vl, v, strip_t(n["var"].get("t") or ""))
                elif v[0] == "ref":
                    s1.refs[vl] = v[1]
                    self.bindings(n["var"], s1, fr, v[1])
                else:
                    s1.store[vl] = v
                    self.bindings(n["var"], s1, fr, vl)
                x = self.ex(n["b"], s1, fr)
                nxt += x["next"] + x["continue"]
                r["next"] += x["break"]
                self.merge(r, x, ("next", "break", "continue"))
            cur = nxt
        r["next"] += cur

    def eval_cond(self, cond, s, fr):
        if cond is None:
            return [(s, True)]
        out = []
        for s1, v in self.ev(cond, s, fr):
            out += self.decide(s1, v, cond)
        return out

    def try_unroll(self, st, fr, cond, inc, body, limit=70):
        """unroll when every loop test is decided; None otherwise"""
        if cond is None or cond.get("cv") is not None or cond.get("k") == "bool":
            return None
        res = {"next": [], "break": [], "continue": [], "return": [], "throw": []}
        save = (self.n,)
        cur = [st.copy()]
        for it in range(limit):
            nxt = []
            for s in cur:
                evs = self.ev(cond, s, fr)
                if len(evs) != 1:
                    return None
                s1, v = evs[0]
                tr = s1.facts.truth(self.as_bool(v, cond.get("t")))
                if tr is not None:
                    OUTCOMES.setdefault(id(cond), set()).add(bool(tr))
                if tr is None:
                    return None
                if not tr:
                    res["next"].append(s1)
                    continue
                x = self.ex(body, s1, fr)
                res["next"] += x["break"]
                self.merge(res, x, ("next", "break", "continue"))
                for s2 in x["next"] + x["continue"]:
                    if inc is not None:
                        for s3, _ in self.ev(inc, s2, fr):
                            nxt.append(s3)
                    else:
                        nxt.append(s2)
            cur = self.dedupe(nxt)
            if len(cur) > (400 if self.seq else 40):
                return None
            if not cur:
                return res
        return None

    def written_between(self, a, b):
        """locations whose value differs between two states"""
        w = set()
        for k, v in b.store.items():
            if a.store.get(k, None) != v:
                w.add(k)
        for k in a.store:
            if k not in b.store:
                w.add(k)
        ep = {k for k, v in b.epochs.items() if a.epochs.get(k) != v}
        return w, ep

    def full_unroll(self, st, fr, cond, inc, body, post):
        """partition by the number of rounds; None when some path needs more than the bound"""
        res = {"next": [], "break": [], "continue": [], "return": [], "throw": []}
        cur = [st.copy()]
        for it in range(self.unroll + 1):
            go = []
            for s in cur:
                if post and it == 0:
                    go.append(s)
                    continue
                for s1, b in self.eval_cond(cond, s, fr):
                    if b:
                        go.append(s1)
                    else:
                        res["next"].append(s1)
            if not go:
                return res
            if it == self.unroll:
                return None
            nxt = []
            for s in go:
                x = self.ex(body, s, fr)
                res["next"] += x["break"]
                self.merge(res, x, ("next", "break", "continue"))
                for s2 in x["next"] + x["continue"]:
                    if inc is not None:
                        nxt += [s3 for s3, _ in self.ev(inc, s2, fr)]
                    else:
                        nxt.append(s2)
            cur = self.dedupe(nxt)
            if len(cur) > 600:
                return None
        return None

    def loop(self, n, st, fr, r, cond, inc, body, post=False, rng=None, cvar=None):
        if self.unroll and rng is None and cvar is None:
            u = self.full_unroll(st, fr, cond, inc, body, post)
            if u is not None:
                self.merge(r, u)
                return
        if rng is None and not post and cvar is None:
            # first test decided false: skip; small decided trip counts: unroll
            probe = self.ev(cond, st.copy(), fr) if cond is not None else []
            if len(probe) == 1:
                tr = probe[0][0].facts.truth(self.as_bool(probe[0][1], cond.get("t")))
                if tr is not None:
                    OUTCOMES.setdefault(id(cond), set()).add(bool(tr))
                if tr is not None and cond.get("cv") is None and cond.get("k") != "bool":
                    try:
                        u = self.try_unroll(st, fr, cond, inc, body)
                    except Budget:
                        u = None
                    if u is not None:
                        self.merge(r, u)
                        return
        self.n += 1
        lid = self.n
        pre_declared = st.ghost.get("declared", frozenset())
        built = st.ghost.get("built", frozenset())
        havoc_locs = {}
        havoc_eps = set()
        invs = None
        depth = len(st.scopes)
        idx = None
        if rng is not None:
            idx = ("v", "i@%d" % lid)
            self.ttype[idx] = "unsigned long"

        def head(with_invs):
            s = st.copy()
            for ep in havoc_eps:
                for k in list(s.store):
                    if under(k, ep) and k not in havoc_locs:
                        del s.store[k]
                s.epochs[ep] = lid * 1000 + 1
            for l, sym in havoc_locs.items():
                # drop parts of a havocked container
                for k in list(s.store):
                    if k != l and under(k, l):
                        del s.store[k]
                s.store[l] = sym
            s.events = st.events
            for cnd in with_invs:
                s.facts.assume(cnd, True)
            return s

        def run(s):
            """one generic iteration -> (back edge states, result dict)"""
            res = {"next": [], "break": [], "continue": [], "return": [], "throw": []}
            back = []
            s.events = s.events + (Event("iter", None, None, (), None, n.get("l", 0), self.file, n, None, lid),)
            if rng is not None:
                sz = self.size_term(s, rng)
                ent = s.copy()
                ent.events = s.events[:-1]
                s.facts.assume(ge(idx, ZERO), True)
                if not s.facts.assume(mk_ge0(sub(sub(sz, idx), ONE)), True):
                    res["next"].append(ent)
                    return back, res
                el = self.elem_loc(s, rng, idx)
                v = n["var"]
                vl = self.declare(s, fr, v["d"])
                if v.get("isref") or v["t"].rstrip().endswith("&"):
                    s.refs[vl] = el
                    self.bindings(v, s, fr, el)
                else:
                    if self.is_record(v["t"]):
                        self.copy_object(s, el, vl, v["t"])
                    else:
                        s.store[vl] = self.read(s, el, v["t"])
                    self.bindings(v, s, fr, vl)
                res["next"].append(ent)
                x = self.ex(body, s, fr)
                back = x["next"] + x["continue"]
                res["next"] += x["break"]
                self.merge(res, x, ("next", "break", "continue"))
                return back, res
            if post:
                x = self.ex(body, s, fr)
                res["next"] += x["break"]
                self.merge(res, x, ("next", "break", "continue"))
                for s1 in x["next"] + x["continue"]:
                    for s2, b in self.eval_cond(cond, s1, fr):
                        (back if b else res["next"]).append(s2)
                return back, res
            ent0 = s
            if cvar is not None:
                sts = self.decl_var(cvar, s, fr)
            else:
                sts = [s]
            for s0 in sts:
                for s1, b in self.eval_cond(cond, s0, fr):
                    if not b:
                        res["next"].append(s1)
                        continue
                    x = self.ex(body, s1, fr)
                    res["next"] += x["break"]
                    self.merge(res, x, ("next", "break", "continue"))
                    for s2 in x["next"] + x["continue"]:
                        if inc is not None:
                            for s3, _ in self.ev(inc, s2, fr):
                                back.append(s3)
                        else:
                            back.append(s2)
            return back, res

        # 1. what does the body write?
        for _ in range(8):
            h = head(())
            h0 = h.copy()
            back, res = run(h)
            changed = False
            for s2 in back:
                w, ep = self.written_between(h0, s2)
                for l in w:
                    root = self._root(l)
                    if root[0] == "V" and root not in pre_declared:
                        continue
                    if root[0] == "T" and root not in built and root not in st.store and not any(under(k, root) for k in st.store):
                        continue
                    if l in havoc_locs:
                        continue
                    if l[0] == "I" and not self._stable_index(l, havoc_locs):
                        # element write at a loop-dependent index: the container changes
                        cl = l[1]
                        if cl[0] == "D":
                            if cl not in havoc_eps:
                                havoc_eps.add(cl)
                                changed = True
                        elif cl not in havoc_locs:
                            havoc_locs[cl] = ("v", "L%d:%s" % (lid, show_loc(cl)))
                            changed = True
                        continue
                    t = None
                    old = st.store.get(l)
                    if old is not None:
                        t = self.ttype.get(old)
                    nv = s2.store.get(l)
                    if t is None and nv is not None:
                        t = self.ttype.get(nv)
                    if t is None:
                        t = self.loc_type(l, fr)
                    sym = ("v", "L%d:%s" % (lid, show_loc(l)))
                    if t:
                        self.ttype[sym] = t
                    elif old is not None and old[0] in ("c", "lin", "ge0", "eq0"):
                        self.ttype.setdefault(sym, "long")
                    havoc_locs[l] = sym
                    changed = True
                for l in ep:
                    root = self._root(l)
                    if root[0] == "V" and root not in pre_declared:
                        continue
                    if root[0] == "T" and not any(under(k, root) for k in st.store) and root not in built:
                        continue
                    if l[0] == "D" and self._mentions_new(l, st):
                        continue
                    if l not in havoc_eps:
                        havoc_eps.add(l)
                        changed = True
            if not changed:
                break
        # 2. template invariants
        cands = []
        nums = []
        for l, sym in havoc_locs.items():
            old = st.store.get(l)
            if old is None:
                old = self.read(st, l, self.ttype.get(sym))
            if old is None:
                continue
            ot = self.ttype.get(sym)
            isnum = old[0] in ("c", "lin", "ge0", "eq0") or self._numeric(old, None) or (ot and (ot in INT or ot.endswith("*")))
            if isnum and old[0] not in ("null", "s", "addr", "ref", "none", "some", "ok", "okv", "err", "lam", "not"):
                nums.append((l, sym, old))
                cands.append(("ge", sym, old))
                cands.append(("le", sym, old))
        for (l1, s1, o1), (l2, s2, o2) in itertools.combinations(nums[:8], 2):
            cands.append(("sum", s1, o1, s2, o2))
            cands.append(("dif", s1, o1, s2, o2))
        # bounds from the loop test and from facts at entry
        for cnd in self.cond_bounds(cond, head(()), fr):
            cands.append(("raw", cnd))
        # facts known at entry, restated for the loop symbols
        ren = {}
        for l, sym, old in nums:
            if old[0] in ("v", "in", "op"):
                ren[old] = sym
        if ren:
            from dom import subst
            for l in st.facts.lins:
                if any(a in ren for a, _ in l[2]):
                    cands.append(("raw", mk_ge0(subst(l, ren))))
        for x in self.extra_cands:
            cands += [("raw", y) for y in x(self, st, havoc_locs)]

        def inst(cd, store):
            if cd[0] == "raw":
                return [subst_store(cd[1], store, havoc_locs, self)]
            g = lambda sym: store.get(sym_loc[sym], sym)
            if cd[0] == "ge":
                return [ge(g(cd[1]), cd[2])]
            if cd[0] == "le":
                return [ge(cd[2], g(cd[1]))]
            if cd[0] == "comb":
                tot = ZERO
                for k, sym, old in cd[1]:
                    tot = add(tot, scale(sub(g(sym), old), k))
                return [mk_eq0(tot)]
            if cd[0] == "sum":
                return [mk_eq0(sub(add(g(cd[1]), g(cd[3])), add(cd[2], cd[4])))]
            if cd[0] == "dif":
                return [mk_eq0(sub(sub(g(cd[1]), g(cd[3])), sub(cd[2], cd[4])))]
        sym_loc = {sym: l for l, sym in havoc_locs.items()}
        # entry filter
        ent_store = {l: (st.store[l] if l in st.store else self.read(st, l, self.ttype.get(sym))) for l, sym in havoc_locs.items()}
        ok = []
        for cd in cands:
            try:
                if all(st.facts.truth(x) is True for x in inst(cd, ent_store)):
                    ok.append(cd)
            except Exception:
                pass
        cands = ok
        hstore = {l: sym for l, sym in havoc_locs.items()}
        for _ in range(6):
            conds = []
            for cd in cands:
                conds += inst(cd, hstore)
            h = head(conds)
            back, res = run(h)
            keep = []
            for cd in cands:
                good = True
                for s2 in back:
                    for x in inst(cd, s2.store):
                        if s2.facts.truth(x) is not True:
                            good = False
                            break
                    if not good:
                        break
                if good:
                    keep.append(cd)
            if len(keep) == len(cands):
                break
            cands = keep
        else:
            conds = []
            h = head(conds)
            back, res = run(h)
        # inductive by construction: no iteration changes the sum
        more = []
        for cd in self.linear_combos(nums, back):
            more += inst(cd, hstore)
        if more:
            conds = conds + more
            h = head(conds)
            back, res = run(h)
        info = {"id": lid, "node": n, "entry": ent_store, "head": hstore, "back": back, "cond": cond,
                "nevents": len(st.events), "file": self.file, "range": rng, "idx": idx,
                "invariants": conds, "exits": res, "frame": fr}
        self.loops[lid] = info
        for s in res["next"]:
            # after the loop the events of the generic iteration are summarised
            its = [x for x in s.events[len(st.events):]]
            bodies = tuple(tuple(b.events[len(st.events):]) for b in back)
            s.events = st.events + (Event("loop", None, None, (), None, n.get("l", 0), self.file, n, None,
                                          (lid, bodies, tuple(its))),) + self.exit_events(its)
        for s, v in res["return"]:
            pass
        for k in ("break", "continue"):
            res[k] = []
        # values needed from before the loop when it cannot be entered are
        # covered by the havocked head state
        if res["next"]:
            res["next"] = self.dedupe(res["next"])
        self.merge(r, res)

    def linear_combos(self, nums, back):
        """equalities sum(+-(x - x0)) == 0 over three or four loop variables"""
        out = []
        if not back or len(nums) < 3 or len(nums) > 7:
            return out
        for size in (3, 4):
            for group in itertools.combinations(nums, size):
                for signs in itertools.product((1, -1), repeat=size - 1):
                    ks = (1,) + signs
                    good = True
                    for s2 in back:
                        tot = ZERO
                        for k, (l, sym, old) in zip(ks, group):
                            v = s2.store.get(l, sym)
                            if v[0] in ("null", "addr", "ref", "s"):
                                good = False
                                break
                            tot = add(tot, scale(sub(v, sym), k))
                        if not good or (tot != ZERO and s2.facts.truth(mk_eq0(tot)) is not True):
                            good = False
                            break
                    if good:
                        out.append(("comb", tuple((k, sym, old) for k, (l, sym, old) in zip(ks, group))))
        return out

    def exit_events(self, its):
        """events of the iteration that leaves the loop by break"""
        ev = [x for x in its if x.kind != "iter"]
        return tuple(ev)

    def _stable_index(self, l, havoc_locs):
        syms = set(havoc_locs.values())
        from dom import subterms
        return not any(x in syms or (x[0] == "v" and x[1].startswith(("L", "i@"))) for x in subterms(l[2]))

    def _mentions_new(self, l, st):
        return False

    def loc_type(self, l, fr):
        if l[0] == "F":
            return None
        return None

    def cond_bounds(self, cond, s, fr):
        """weak forms (<=) of the loop test's linear comparisons"""
        out = []
        if cond is None:
            return out
        parts = [cond]
        flat = []
        while parts:
            p = parts.pop()
            if p["k"] == "bin" and p["op"] == "&&":
                parts += [p["x"], p["y"]]
            elif p["k"] == "cast" and p.get("ck") in ("IntegralToBoolean",):
                parts.append(p["e"])
            else:
                flat.append(p)
        for p in flat:
            try:
                for s1, v in self.ev(p, s.copy(), fr)[:1]:
                    if v[0] == "ge0":
                        out.append(mk_ge0(add(v[1], ONE)))
                    elif v[0] == "not" and v[1][0] == "eq0":
                        out.append(mk_ge0(v[1][1]))
                        out.append(mk_ge0(neg(v[1][1])))
            except (Unsupported, Budget, IndexError):
                pass
        return out

    def size_term(self, s, loc):
        v = self.read(s, loc, None)
        return size_of(self, s, v)

    def elem_loc(self, s, rng, idx):
        return ("I", rng, idx)

    # ------------------------------------------------------------ entry
    def run(self, f, this=None, args=None, setup=None, st=None):
        """analyse function f for unknown arguments -> [(kind, state, value)]"""
        s = st or self.new_state()
        if this is None and f.get("cls") and not f.get("static") and f.get("fk") in ("method", "ctor", "dtor", "conv"):
            this = ("D", ("v", "this"))
        vs = []
        for i, p in enumerate(f.get("params") or []):
            if args is not None and i < len(args) and args[i] is not None:
                vs.append(args[i])
                continue
            pt = p["t"].rstrip()
            nm = p.get("n") or "arg%d" % i
            if pt.endswith("&") or self.is_record(pt):
                vs.append(("ref", ("D", ("v", "&" + nm))))
            else:
                v = ("v", nm)
                self.ttype[v] = strip_t(pt)
                vs.append(v)
        if setup:
            setup(self, s, this, vs)
        self.file = f.get("file", "")
        return self.run_body(f, s, this, vs, None, None)


def subst_store(cnd, store, havoc_locs, eng):
    from dom import subst
    m = {}
    for l, sym in havoc_locs.items():
        if l in store:
            m[sym] = store[l]
    return subst(cnd, m)


def size_of(eng, s, v):
    if v[0] == "s":
        return c(len(v[1]))
    if v[0] == "op":
        if v[1] == "empty":
            return ZERO
        if v[1] in ("list", "seq", "str"):
            return c(len(v) - 2)
        if v[1] in ("u:push_back", "u:emplace_back"):
            return add(size_of(eng, s, v[2]), ONE)
        if v[1] == "upd":
            return size_of(eng, s, v[2])
        if v[1] == "strview" and len(v) == 4:
            return v[3]
        if v[1] == "fill":
            return v[2]
        if v[1] == "u:resize":
            return v[3]
    return eng.typed(op("size", v), "unsigned long")


# ---------------------------------------------------------------- std models
HANDLERS = {}


def handler(*names):
    def d(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return d


def _obj_locs(eng, e, st, fr):
    ot = strip_t(e["obj"].get("t", ""))
    if e.get("arrow") or ot.endswith("*"):
        return eng.ptr_loc(e["obj"], st, fr)
    return eng.lv(e["obj"], st, fr)


@handler("std::abort", "std::terminate", "std::exit", "abort", "exit", "std::quick_exit", "_exit", "std::_Exit")
def h_abort(eng, e, st, fr):
    """the process ends here"""
    eng.aborts.append((st, eng.file, e.get("l", 0)))
    return []


@handler("std::move", "std::forward", "std::__addressof", "std::as_const", "std::make_move_iterator", "std::ref", "std::cref")
def h_identity(eng, e, st, fr):
    a = e["a"][0]
    t = e.get("t")
    out = []
    for s, l in eng.lv(a, st, fr):
        if eng.is_record(t):
            out.append((s, ("ref", l)))
        elif e["fn"] in ("std::move", "std::forward"):
            # keep it an lvalue so that moving from it can be seen
            out.append((s, ("ref", l)) if l[0] != "T" else (s, eng.read(s, l, a.get("t"))))
        else:
            out.append((s, eng.read(s, l, a.get("t"))))
    # std::move used as an rvalue operand
    return [(s, v if v[0] != "ref" or eng.is_record(t) else eng.read(s, v[1], a.get("t"))) for s, v in out]


@handler("fmt::format", "fmt::vformat", "fmt::to_string", "fmt::join")
def h_fmt(eng, e, st, fr):
    """message formatting: a pure function of its arguments; plain placeholders of known texts are filled in"""
    out = []
    for s, vs in eng.evs(e["a"], st, fr):
        r = None
        if eng.seq and e["fn"] == "fmt::format" and vs:
            r = fmt_text(eng, s, vs, e["a"])
        out.append((s, r if r is not None else op(e["fn"], *vs)))
    return out


def fmt_text(eng, s, vs, args):
    import seq
    f = vs[0]
    if f[0] == "op" and str(f[1]).startswith("new:fmt::") and len(f) == 3:
        f = f[2]
    if f[0] != "s" or "{{" in f[1] or "}}" in f[1]:
        return None
    parts = f[1].split("{}")
    if len(parts) != len(vs) or any("{" in x or "}" in x for x in parts):
        return None
    out = list(seq.chars(("s", parts[0])))
    for x, a, t in zip(vs[1:], args[1:], parts[1:]):
        x = eng.argval(s, x, a.get("t"))
        cs = seq.chars(x)
        if cs is None:
            if x[0] == "c" and strip_t(a.get("t", "")) in ("int", "long", "unsigned int", "unsigned long", "short"):
                cs = seq.chars(("s", str(x[1])))
            else:
                return None
        out += cs
        out += seq.chars(("s", t))
    return seq.mkstr(out)


@handler("__builtin_clz", "__builtin_clzl", "__builtin_clzll", "__builtin_ctz", "__builtin_ctzl", "__builtin_ctzll",
         "__builtin_popcount", "__builtin_popcountl", "__builtin_popcountll", "__builtin_ffsll")
def h_bitcount(eng, e, st, fr):
    """bit counting of constants"""
    fn = e["fn"]
    w = 64 if fn.endswith("l") else 32
    out = []
    for s, (v,) in eng.evs(e["a"], st, fr):
        if v[0] != "c":
            out.append((s, eng.typed(op(fn, v), e.get("t"))))
            continue
        u = v[1] & (2 ** w - 1)
        if "clz" in fn:
            out.append((s, c(w - u.bit_length()) if u else op("bad:clz of zero")))
        elif "ctz" in fn:
            out.append((s, c((u & -u).bit_length() - 1) if u else op("bad:ctz of zero")))
        elif "ffs" in fn:
            out.append((s, c((u & -u).bit_length())))
        else:
            out.append((s, c(bin(u).count("1"))))
    return out


@handler("std::addressof")
def h_addressof(eng, e, st, fr):
    return [(s, ("addr", l)) for s, l in eng.lv(e["a"][0], st, fr)]


@handler("std::setw", "std::setfill")
def h_manip(eng, e, st, fr):
    return [(s, op(e["fn"].rsplit("::", 1)[1].split("<")[0], v)) for s, v in eng.ev(e["a"][0], st, fr)]


@handler("std::reference_wrapper::get")
def h_refwrap(eng, e, st, fr):
    out = []
    for s, l in _obj_locs(eng, e, st, fr):
        v = eng.read(s, l, None)
        if v is None or v[0] != "addr":
            return NotImplemented
        out.append((s, ("ref", v[1])))
    return out


@handler("std::reference_wrapper::operator=")
def h_refwrap_set(eng, e, st, fr):
    out = []
    a = e["a"][0]
    for s, l in _obj_locs(eng, e, st, fr):
        for s2, v in eng.ev(a, s, fr):
            if strip_t(a.get("t", "")).startswith("std::reference_wrapper"):
                v = eng.read(s2, v[1], None) if v[0] == "ref" else v
            elif v[0] == "ref":
                v = ("addr", v[1])
            eng.write(s2, l, v, e, fr)
            out.append((s2, ("ref", l)))
    return out


@handler("std::min", "std::max")
def h_minmax(eng, e, st, fr):
    out = []
    name = e["fn"].rsplit("::", 1)[1]
    if len(e["a"]) != 2:
        return NotImplemented
    for s, vs in eng.evs(e["a"], st, fr):
        x, y = vs
        d = s.facts.truth(ge(x, y)) if eng._numeric(x, e.get("t")) and eng._numeric(y, e.get("t")) else None
        if d is None and eng._numeric(x, e.get("t")) and eng._numeric(y, e.get("t")):
            for s2, b in eng.branch(s, ge(x, y)):
                out.append((s2, (y if b else x) if name == "min" else (x if b else y)))
        elif d is None and eng.seq and (x[0] == y[0] and x[0] in ("f", "s", "ref")):
            et = strip_t(e.get("t", ""))
            a, b = (y, x) if name == "min" else (x, y)
            for s1, v in _seq.less(eng, s, a, b, et, fr, e):
                for s2, tv in eng.branch(s1, v):
                    out.append((s2, y if tv else x))
        elif d is None:
            out.append((s, op(name, x, y)))
        else:
            out.append((s, (y if d else x) if name == "min" else (x if d else y)))
    return out


@handler("std::numeric_limits::max", "std::numeric_limits::min", "std::numeric_limits::lowest")
def h_limits(eng, e, st, fr):
    rg = eng.int_range(e.get("t"))
    if rg is None:
        return [(st, op(e["fn"], ("s", strip_t(e.get("t")))))]
    return [(st, c(rg[1] if e["fn"].endswith("max") else rg[0]))]


def strip_targs(t):
    """qualified name without template arguments"""
    out, d = "", 0
    for ch in t:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out += ch
    return out


def make_object(eng, inner, args, e, st, fr):
    """[(state, ref)]: object of a class of the program built by the constructor that fits the arguments"""
    name = strip_targs(inner)
    cands = [f for f in eng.prog.fns(name + "::" + name.rsplit("::", 1)[-1])
             if f.get("fk") == "ctor" and not f.get("dep") and len(f["params"]) == len(args)
             and not (len(args) == 1 and (f.get("copy") or f.get("move")) and strip_t(args[0].get("t")) != inner)]
    if len(cands) > 1 or (cands and "<" in inner):
        def score(f):
            return sum(1 for p, a in zip(f["params"], args) if strip_t(p["t"]) == strip_t(a.get("t", "")))
        cands = [f for f in cands if (("<" + (f.get("cta") or "") + ">") in inner or "<" not in inner)] or cands
        cands.sort(key=score, reverse=True)
    ce = {"k": "construct", "cls": name, "t": inner, "a": args, "l": e.get("l", 0), "fn": name + "::" + name.rsplit("::", 1)[-1]}
    if cands:
        ce["id"] = cands[0]["id"]
        ce["pm"] = ["r" if p["t"].rstrip().endswith("&") else "v" for p in cands[0]["params"]]
    return eng.inline_ctor(ce, inner, args, st, fr)


@handler("std::enable_shared_from_this::shared_from_this", "std::enable_shared_from_this::weak_from_this")
def h_from_this(eng, e, st, fr):
    return [(s, ("addr", l)) for s, l in _obj_locs(eng, e, st, fr)]


@handler("std::make_shared", "std::make_unique", "std::allocate_shared")
def h_make(eng, e, st, fr):
    """build the object with the constructor that matches the arguments"""
    t = strip_t(e.get("t"))
    inner = t[t.index("<") + 1: t.rindex(">")].strip()
    depth = 0
    for i, ch in enumerate(inner):
        if ch in "<(":
            depth += 1
        elif ch in ">)":
            depth -= 1
        elif ch == "," and depth == 0:
            inner = inner[:i].strip()
            break
    inner = strip_t(inner)
    args = e.get("a") or []
    if eng.is_record(inner):
        out = []
        for s, v in make_object(eng, inner, args, e, st, fr):
            out.append((s, ("addr", v[1])))
        return out
    out = []
    for s, vs in eng.evs(args, st, fr):
        l = eng.temp(inner)
        if inner.startswith("std::"):
            ce = vs[0] if len(vs) == 1 else (op("empty", ("s", inner.split("<")[0])) if not vs else op("new:" + inner.split("<")[0], *vs))
            s.store[l] = ce
        elif len(vs) == 1:
            s.store[l] = vs[0]
        s.events = s.events + (Event("construct", inner, ("addr", l), tuple(vs), ("ref", l), e.get("l", 0), eng.file, e),)
        out.append((s, ("addr", l)))
    return out


@handler("std::make_pair", "std::make_tuple", "std::tie")
def h_pair(eng, e, st, fr):
    return [(s, op("pair", *vs)) for s, vs in eng.evs(e["a"], st, fr)]


@handler("std::get")
def h_get(eng, e, st, fr):
    out = []
    idx = (e.get("fta") or "").split(",")[0].strip().rstrip("UL")
    for s, l in eng.lv(e["a"][0], st, fr):
        v = s.store.get(l)
        if v is not None and v[0] == "op" and v[1] in ("pair", "list") and idx.isdigit():
            out.append((s, v[2 + int(idx)]))
        else:
            fl = ("F", l, "get<%s>" % idx)
            if eng.is_record(e.get("t")):
                out.append((s, ("ref", fl)))
            else:
                out.append((s, eng.read(s, fl, e.get("t"))))
    return out


@handler("memcpy", "std::memcpy", "memmove", "std::memmove", "memset", "std::memset", "__builtin_memcpy", "std::copy", "std::copy_n")
def h_mem(eng, e, st, fr):
    out = []
    for s, vs in eng.evs(e["a"], st, fr):
        name = e["fn"].replace("std::", "").replace("__builtin_", "")
        s.events = s.events + (Event("mem", name, None, tuple(vs), None, e.get("l", 0), eng.file, e, s.facts.copy()),)
        eng.callees.add(e["fn"])
        d = vs[0] if name not in ("copy", "copy_n") else vs[2]
        if d[0] == "addr":
            eng.havoc(s, d[1])
            # a fixed-size copy into a scalar keeps the source's identity
            if name in ("memcpy", "memmove") and d[1][0] in ("V", "T"):
                s.store[d[1]] = op("bytes", vs[1], vs[2], c(eng.epoch(s, eng.deref(vs[1])) if vs[1][0] not in ("lin",) else 0))
        else:
            base, off = eng.split_ptr(d)
            eng.havoc(s, ("D", base if base is not None else d))
        out.append((s, d))
    return out


@handler(*_seq.CTYPE)
def h_ctype(eng, e, st, fr):
    if len(e.get("a") or []) != 1:
        return NotImplemented
    return [(s, c(_seq.CTYPE[e["fn"]](v[1])) if v[0] == "c" else eng.typed(op(e["fn"].replace("std::", ""), v), e.get("t")))
            for s, v in eng.ev(e["a"][0], st, fr)]


@handler(*[p + n for n in _flt.FN for p in ("", "std::")])
def h_float(eng, e, st, fr):
    n = e["fn"].replace("std::", "")
    if len(e.get("a") or []) != 1 or (n == "abs" and strip_t(e.get("t")) not in ("double", "float")):
        return NotImplemented
    return [(s, _flt.call(n, v) or eng.typed(op("std::" + n, v), e.get("t"))) for s, v in eng.ev(e["a"][0], st, fr)]


@handler("strlen", "std::strlen")
def h_strlen(eng, e, st, fr):
    return [(s, c(len(v[1])) if v[0] == "s" else eng.typed(op("strlen", v), "unsigned long")) for s, v in eng.ev(e["a"][0], st, fr)]


def lock_method(eng, e, st, fr):
    m = e["fn"].rsplit("::", 1)[1]
    out = []
    for s, l in _obj_locs(eng, e, st, fr):
        gm = s.ghost.get(("guardm", l))
        if gm is None:
            # direct mutex lock/unlock
            mode = "shared" if "shared" in m else "excl"
            if "unlock" in m:
                s.locks = tuple(x for x in s.locks if x[0] != l)
                s.events = s.events + (Event("unlock", None, ("addr", l), (), None, e.get("l", 0), eng.file, e),)
            elif m in ("lock", "lock_shared"):
                s.locks = s.locks + ((l, mode, l),)
                s.events = s.events + (Event("lock", mode, ("addr", l), (), None, e.get("l", 0), eng.file, e),)
                if eng.on_lock:
                    eng.on_lock(eng, s, l, mode)
            else:
                for s2, b in eng.branch(s, eng.fresh("trylock", "bool")):
                    if b:
                        s2.locks = s2.locks + ((l, mode, l),)
                    out.append((s2, c(b)))
                continue
            out.append((s, op("void")))
            continue
        mt, mode = gm
        if m == "unlock":
            s.locks = tuple(x for x in s.locks if x[2] != l)
            s.ghost.pop(("guard", l), None)
            s.events = s.events + (Event("unlock", None, mt, (), None, e.get("l", 0), eng.file, e),)
        elif m in ("lock",):
            if mt is not None:
                s.locks = s.locks + ((mt[1] if mt[0] == "addr" else mt, mode, l),)
                s.ghost[("guard", l)] = mt
                s.events = s.events + (Event("lock", mode, mt, (), None, e.get("l", 0), eng.file, e),)
                if eng.on_lock:
                    eng.on_lock(eng, s, mt[1] if mt[0] == "addr" else mt, mode)
        out.append((s, op("void")))
    return out


for _c in ("std::unique_lock", "std::shared_lock", "std::mutex", "std::shared_mutex", "std::recursive_mutex", "std::scoped_lock"):
    for _m in ("lock", "unlock", "lock_shared", "unlock_shared", "try_lock"):
        HANDLERS[_c + "::" + _m] = lock_method


@handler("std::condition_variable::wait", "std::condition_variable::wait_for", "std::condition_variable_any::wait")
def h_cvwait(eng, e, st, fr):
    """the lock is released and re-taken: everything it guards may change; with
    a predicate the predicate holds on return"""
    out = []
    timed = e["fn"].endswith("wait_for")
    for s, l in eng.lv(e["a"][0], st, fr):
        s.events = s.events + (Event("cv_wait", e["fn"], ("addr", l), (), None, e.get("l", 0), eng.file, e,
                                    None, tuple(s.locks)),)
        if fr.this is not None:
            root = fr.this
            for k in list(s.store):
                if under(k, root) and k not in s.refs:
                    del s.store[k]
            eng.n += 1
            s.epochs[root] = eng.n
        pi = 2 if timed else 1
        if len(e["a"]) > pi:
            ce = {"k": "call", "fn": "lambda::operator()", "oper": "()", "obj": e["a"][pi], "a": [], "t": "bool", "l": e.get("l", 0)}
            r = eng.call_lambda(ce, s, fr)
            for s2, v in r or []:
                for s3, b in eng.branch(s2, eng.as_bool(v, "bool")):
                    if b or timed:
                        out.append((s3, c(b)))
        else:
            out.append((s, eng.fresh("cvstatus", e.get("t"))))
    return out


def std_handler(fn):
    parts = fn.split("::")
    if len(parts) < 2:
        return None
    m = parts[-1]
    cls = parts[-2] if len(parts) > 2 else ""
    if fn.startswith(("std::__shared_ptr_access::", "std::__shared_ptr::", "std::shared_ptr::", "std::unique_ptr::",
                      "std::weak_ptr::", "std::__weak_ptr::")):
        return h_smart
    if fn.startswith(("std::optional::", "std::_Optional_base", "std::__detail::")) and cls == "optional":
        return h_optional
    if fn.startswith("std::bitset::reference::"):
        return h_bitref
    if cls in ("atomic", "__atomic_base", "atomic_flag", "__atomic_float"):
        return h_atomic
    if cls in STD_CONTAINERS or cls in ("pair", "_Rb_tree_iterator", "_Rb_tree_const_iterator", "_List_iterator",
                                        "_List_const_iterator", "_Node_iterator", "_Node_const_iterator",
                                        "__normal_iterator", "reverse_iterator", "_Deque_iterator", "basic_ostream", "move_iterator"):
        return h_container
    if fn in ("std::operator==", "std::operator!=", "std::operator<", "std::operator>", "std::operator<=", "std::operator>=",
              "std::__detail::operator==", "std::__detail::operator!=", "__gnu_cxx::operator==", "__gnu_cxx::operator!=",
              "__gnu_cxx::operator<"):
        return h_stdcmp
    if len(parts) == 2 or cls in ("__detail",):
        return h_stdfn
    return None


def h_bitref(eng, e, st, fr):
    """proxy of one bit: op("bitref", address of the set, index)"""
    m = e["fn"].rsplit("::", 1)[1]
    out = []

    def get(s, r):
        if r[0] == "op" and r[1] == "bitref":
            v = s.store.get(r[2][1])
            if v is not None and v[0] == "op" and v[1] == "bitset":
                return v[2 + r[3][1]]
        return None
    for s, r in eng.ev(e["obj"], st, fr):
        if r[0] == "ref":
            r = eng.read(s, r[1], None)
        b = get(s, r)
        if m in ("operator bool", "operator~"):
            x = eng.typed(op("bit", r), "bool") if b is None else b
            out.append((s, not_(x) if m == "operator~" else x))
            continue
        for s2, vs in eng.evs(e.get("a") or [], s, fr):
            x = vs[0] if vs else (not_(b) if b is not None else None)
            if x is not None and x[0] == "ref":
                x = eng.read(s2, x[1], None)
            if x is not None and x[0] == "op" and x[1] == "bitref":
                x = get(s2, x)
            if r[0] == "op" and r[1] == "bitref":
                v = s2.store.get(r[2][1])
                if v is not None and v[0] == "op" and v[1] == "empty":
                    return NotImplemented
                if v is not None and x is not None:
                    s2.store[r[2][1]] = v[:2 + r[3][1]] + (x,) + v[3 + r[3][1]:]
                else:
                    eng.havoc(s2, r[2][1])
            out.append((s2, r))
    return out


def h_stdcmp(eng, e, st, fr):
    o = e["fn"].rsplit("operator", 1)[1]
    out = []
    for s, (x, y) in eng.evs(e["a"], st, fr):
        tx = strip_t(e["a"][0].get("t", ""))
        ty = strip_t(e["a"][1].get("t", ""))
        if "nullptr_t" in (tx, ty) or x == NULL or y == NULL:
            z = x if (y == NULL) else y
            r = eng.compare(s, "==", z, NULL)
            out.append((s, r if o == "==" else not_(r)))
            continue
        if "std::nullopt_t" in (tx, ty):
            z = x if ty == "std::nullopt_t" else y
            h = has_value(eng, z)
            out.append((s, not_(h) if o == "==" else h))
            continue
        if eng.seq and o in ("<", ">", "<=", ">=") and (tx.startswith("std::optional") or ty.startswith("std::optional")):
            r = less_optional(eng, s, o, x, y, tx, ty, fr, e)
            if r is not None:
                out += r
                continue
        if x[0] == "some" and tx.startswith("std::optional") and not ty.startswith("std::optional"):
            out.append((s, eng.compare(s, o, x[1], y)))
            continue
        if eng.seq and o in ("==", "!="):
            for s2, r in _seq.equal_val(eng, s, _seq.load(eng, s, x, tx), _seq.load(eng, s, y, ty), tx, fr, e):
                out.append((s2, r if o == "==" else not_(r)))
            continue
        if o in ("==", "!="):
            out.append((s, eng.compare(s, o, x, y)))
        elif eng.seq and _seq.load(eng, s, x, tx)[0] == "s" and _seq.load(eng, s, y, ty)[0] == "s":
            a, b = (_seq.load(eng, s, v, t)[1].encode("latin-1", "replace") for v, t in ((x, tx), (y, ty)))
            out.append((s, c({"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[o])))
        elif eng.mem and _seq.chars(_seq.load(eng, s, x, tx)) is not None and _seq.chars(_seq.load(eng, s, y, ty)) is not None:
            for s2, d in _mem.compare_chars(eng, s, _seq.chars(_seq.load(eng, s, x, tx)), _seq.chars(_seq.load(eng, s, y, ty))):
                out.append((s2, ONE if {"<": d < 0, ">": d > 0, "<=": d <= 0, ">=": d >= 0}[o] else ZERO))
        else:
            # total order of std values: >, <=, >= in terms of <
            a, b, n = (x, y, False) if o == "<" else (y, x, False) if o == ">" else (y, x, True) if o == "<=" else (x, y, True)
            if a == b:
                r = ZERO
            else:
                r = op("<", a, b)
            out.append((s, not_(r) if n else r))
    return out


def less_optional(eng, s, o, x, y, tx, ty, fr, e):
    """nothing comes before every value; values by their own order"""
    et = _seq.elem_type(tx if tx.startswith("std::optional") else ty)

    def content(v, t):
        if t.startswith("std::optional"):
            v = _seq.load(eng, s, v, t)
            return None if v == ("none",) else v[1] if v[0] == "some" else NotImplemented
        return v
    a, b = content(x, tx), content(y, ty)
    if NotImplemented in (a, b):
        return None
    if o in (">", "<="):
        a, b = b, a
    if a is None or b is None:
        rs = [(s, c(a is None and b is not None))]
    elif eng.is_record(et) and a[0] == "ref" and b[0] == "ref":
        rs = _seq.less(eng, s, a, b, et, fr, e)
    else:
        rs = _seq.less_val(eng, s, _seq.load(eng, s, a, et), _seq.load(eng, s, b, et), et, fr, e)
    return [(s2, v if o in ("<", ">") else not_(v)) for s2, v in rs]


def has_value(eng, v):
    if v[0] == "none":
        return ZERO
    if v[0] == "some":
        return ONE
    return eng.typed(op("has", v), "bool")


def h_optional(eng, e, st, fr):
    m = e["fn"].rsplit("::", 1)[1]
    out = []
    for s, l in _obj_locs(eng, e, st, fr):
        v = eng.read(s, l, e["obj"].get("t"))
        if m in ("has_value", "operator bool"):
            out.append((s, has_value(eng, v)))
        elif m in ("value", "operator*", "operator->"):
            t = strip_t(e.get("t", ""))
            if v[0] == "some":
                w = v[1]
                if eng.seq and w[0] != "ref" and "stream<" in t:
                    # a stream is changed in place and cannot be copied
                    cell = eng.temp()
                    s.store[cell] = w
                    w = ("ref", cell)
                    s.store[l] = ("some", w)
                if m == "operator->" and w[0] == "ref":
                    w = ("addr", w[1])
                elif m == "operator->":
                    tl = eng.temp()
                    s.store[tl] = w
                    w = ("addr", tl)
                out.append((s, w))
            else:
                w = op("oval", v)
                if m == "operator->":
                    out.append((s, eng.typed(op("ovalp", v), t)))
                elif eng.is_record(t):
                    out.append((s, ("ref", ("D", op("ovalp", v)))))
                else:
                    out.append((s, eng.typed(w, t)))
            s.events = s.events + (Event("optvalue", e["fn"], v, (), None, e.get("l", 0), eng.file, e, s.facts),)
        elif m == "operator=":
            for s2, w in eng.ev(e["a"][0], s, fr):
                at = strip_t(e["a"][0].get("t", ""))
                nv = w if at.startswith("std::optional<") else ("none",) if at == "std::nullopt_t" else ("some", w)
                eng.write(s2, l, nv, e, fr)
                out.append((s2, nv))
        elif m == "reset":
            eng.write(s, l, ("none",), e, fr)
            out.append((s, op("void")))
        elif m == "emplace":
            for s2, vs in eng.evs(e.get("a") or [], s, fr):
                eng.write(s2, l, ("some", vs[0] if len(vs) == 1 else op("pair", *vs)), e, fr)
                out.append((s2, vs[0] if vs else op("void")))
        elif m == "value_or":
            for s2, vs in eng.evs(e["a"], s, fr):
                for s3, b in eng.branch(s2, has_value(eng, v)):
                    out.append((s3, (v[1] if v[0] == "some" else eng.typed(op("oval", v), e.get("t"))) if b else vs[0]))
        else:
            return NotImplemented
    return out


def h_smart(eng, e, st, fr):
    m = e["fn"].rsplit("::", 1)[1]
    t = strip_t(e.get("t", ""))
    out = []
    for s, l in _obj_locs(eng, e, st, fr):
        v = eng.read(s, l, e["obj"].get("t"))
        if m in ("operator->", "get", "lock"):
            out.append((s, eng.typed(v, t) if v[0] in ("v", "in", "op") else v))
        elif m == "operator*":
            loc = eng.deref(v)
            out.append((s, ("ref", loc)) if eng.is_record(t) or t.startswith("std::") is False and not is_int(t) else (s, eng.read(s, loc, t)))
        elif m == "operator bool":
            out.append((s, ZERO if v == NULL else ONE if v[0] == "addr" else op("nonnull", v)))
        elif m == "operator=":
            for s2, vl in eng.lv(e["a"][0], s, fr):
                w = eng.read(s2, vl, e["a"][0].get("t"))
                eng.write(s2, l, w, e, fr)
                if e["fn"].startswith("std::unique_ptr") and eng._root(vl)[0] != "T" and vl != l:
                    s2.store[vl] = NULL
                out.append((s2, w))
        elif m == "reset":
            for s2, vs in eng.evs([a for a in e.get("a") or [] if a.get("k") != "defarg"], s, fr):
                eng.write(s2, l, vs[0] if vs else NULL, e, fr)
                out.append((s2, op("void")))
        elif m == "release":
            eng.write(s, l, NULL, e, fr)
            out.append((s, v))
        elif m == "operator[]":
            for s2, vs in eng.evs(e["a"], s, fr):
                loc = ("I", eng.deref(v), vs[0])
                out.append((s2, ("ref", loc)))
        elif m == "use_count":
            out.append((s, eng.fresh("use_count", "long")))
        elif m.startswith("~"):
            out.append((s, op("void")))
        else:
            return NotImplemented
    return out


def h_atomic(eng, e, st, fr):
    m = e["fn"].rsplit("::", 1)[1]
    out = []
    t = e.get("t")
    if m.startswith("compare_exchange"):
        return h_atomic_cas(eng, e, st, fr)
    for s, l in _obj_locs(eng, e, st, fr):
        args = [a for a in e.get("a") or [] if "memory_order" not in (a.get("t") or "")]
        for s2, vs in eng.evs(args, s, fr):
            if eng.on_atomic:
                eng.on_atomic(eng, s2, l)
            v = atomic_value(eng, s2, l, t)
            s2.events = s2.events + (Event("atomic", m, l, tuple(vs), v, e.get("l", 0), eng.file, e),)
            if m in ("load",) or m.startswith("operator ") or m.startswith("operator bool"):
                out.append((s2, v))
            elif m in ("store", "operator="):
                eng.write(s2, l, vs[0], e, fr)
                out.append((s2, vs[0]))
            elif m in ("fetch_add", "operator+=", "fetch_sub", "operator-="):
                nv = add(v, vs[0]) if "add" in m or "+" in m else sub(v, vs[0])
                eng.write(s2, l, nv, e, fr)
                out.append((s2, v if m.startswith("fetch") else nv))
            elif m in ("operator++", "operator--"):
                nv = add(v, ONE) if "++" in m else sub(v, ONE)
                eng.write(s2, l, nv, e, fr)
                out.append((s2, nv if not vs else v))
            elif m in ("exchange",):
                eng.write(s2, l, vs[0], e, fr)
                out.append((s2, v))
            else:
                eng.havoc(s2, l)
                out.append((s2, eng.fresh(m, t)))
    return out


def atomic_value(eng, s, l, t):
    v = eng.read(s, l, t if strip_t(t or "") != "void" else None)
    if v is not None and v[0] == "op" and v[1] == "new:std::atomic" and len(v) == 3:
        v = v[2]
    return v


def h_atomic_cas(eng, e, st, fr):
    """compare_exchange: stores when the expected value is there, else reports the value found"""
    out = []
    for s, l in _obj_locs(eng, e, st, fr):
        for s1, x in eng.lv(e["a"][0], s, fr):
            t = e["a"][0].get("t")
            for s2, nv in eng.ev(e["a"][1], s1, fr):
                if eng.on_atomic:
                    eng.on_atomic(eng, s2, l)
                v = atomic_value(eng, s2, l, t)
                s2.events = s2.events + (Event("atomic", "compare_exchange", l, (nv,), v, e.get("l", 0), eng.file, e),)
                for s3, tv in eng.branch(s2, eng.compare(s2, "==", v, eng.read(s2, x, t), t)):
                    if tv:
                        eng.write(s3, l, nv, e, fr)
                    else:
                        eng.write(s3, x, v, e, fr)
                    out.append((s3, ONE if tv else ZERO))
    return out


# std functions that only pass pointers on or hold no element access
PURE_STD = {"std::operator==", "std::operator!=", "std::operator+", "std::swap", "std::exchange", "std::hash", "std::to_address"}


def h_stdfn(eng, e, st, fr):
    """std algorithm / free function: an uninterpreted function of its values;
    arguments by non-const reference or pointer are havocked"""
    fn = e["fn"]
    pm = e.get("pm") or []
    args = e.get("a") or []
    out = []
    for s, vs in eng.ev_args(None, e, args, st, fr):
        vals = tuple(eng.argval(s, v, a.get("t")) for v, a in zip(vs, args))
        if eng.mem and fn not in PURE_STD:
            r = _mem.algorithm(eng, e, fn, s, vals, args)
            if r is not None:
                out += r
                continue
        if eng.seq:
            r = _seq.algorithm(eng, e, fn, s, vs, vals, args, fr)
            if r is not None:
                out += r
                continue
            if fn == "std::operator+" and len(vals) == 2:
                cv = [[v] if strip_t(a.get("t", "")) == "char" else _seq.chars(v) for v, a in zip(vals, args)]
                if None not in cv:
                    out.append((s, _seq.mkstr(cv[0] + cv[1])))
                    continue
        if fn == "std::operator+" and all(v[0] == "s" for v in vals) and len(vals) == 2:
            out.append((s, ("s", vals[0][1] + vals[1][1])))
            continue
        if fn == "std::operator+":
            # string concatenation: flatten
            parts = []
            for v in vals:
                if v[0] == "op" and v[1] == "concat":
                    parts += list(v[2:])
                else:
                    parts.append(v)
            out.append((s, op("concat", *parts)))
            continue
        if fn in ("std::operator<<",):
            # stream insertion: functional update of the stream
            l = vs[0][1] if vs[0][0] == "ref" else None
            if l is not None:
                s.store[l] = op("u:<<", eng.read(s, l, None), vals[1])
                out.append((s, ("ref", l)))
                continue
        if fn in ("std::dynamic_pointer_cast", "std::static_pointer_cast", "std::const_pointer_cast"):
            ty = strip_t(e.get("t"))
            out.append((s, vals[0] if fn != "std::dynamic_pointer_cast" else eng.dyncast(vals[0], ty)))
            continue
        if fn == "std::exchange" and vs[0][0] == "ref" and not eng.is_record(args[0].get("t") or ""):
            old = eng.read(s, vs[0][1], args[0].get("t"))
            eng.write(s, vs[0][1], vals[1], e, fr)
            out.append((s, old))
            continue
        if fn == "std::swap" and all(v[0] == "ref" for v in vs):
            a, b = vs[0][1], vs[1][1]
            ta = args[0].get("t")
            va, vb = eng.read(s, a, ta), eng.read(s, b, ta)
            if eng.is_record(ta):
                t = eng.temp(strip_t(ta))
                eng.copy_object(s, a, t, ta)
                eng.copy_object(s, b, a, ta)
                eng.copy_object(s, t, b, ta)
            else:
                eng.write(s, a, vb, e, fr)
                eng.write(s, b, va, e, fr)
            out.append((s, op("void")))
            continue
        if fn in ("std::abs", "std::isnan", "std::to_string", "std::distance", "std::next", "std::prev", "std::find",
                  "std::lower_bound", "std::upper_bound", "std::hash", "std::binary_search", "std::tolower", "std::toupper"):
            out.append((s, eng.typed(op(fn, *vals), e.get("t"))))
            continue
        s.events = s.events + (Event("call", fn, None, vals, None, e.get("l", 0), eng.file, e, s.facts.copy()),)
        eng.callees.add(fn)
        nonconst = False
        for i, v in enumerate(vs):
            if i < len(pm) and pm[i] == "r" and v is not None and v[0] == "ref":
                eng.havoc(s, v[1])
                nonconst = True
            elif i < len(pm) and pm[i] == "p" and v is not None and v[0] == "addr":
                eng.havoc(s, v[1])
                nonconst = True
        # iterators of containers that an algorithm may change
        if fn in ("std::sort", "std::stable_sort", "std::fill", "std::transform", "std::reverse", "std::copy", "std::remove_if",
                  "std::partial_sort", "std::nth_element", "std::unique", "std::rotate"):
            for v, a in zip(vals, args):
                if v[0] == "op" and v[1] == "m:begin" and len(v) > 3 and v[3][0] == "addr":
                    l = v[3][1]
                    s.store[l] = op("alg:" + fn, eng.read(s, l, None), *[x for x in vals if x[0] == "lam"])
        tt = strip_t(e.get("t", ""))
        if tt == "void":
            out.append((s, op("void")))
        elif nonconst:
            out.append((s, eng.fresh(fn.rsplit("::", 1)[1], e.get("t"))))
        else:
            out.append((s, eng.typed(op(fn, *vals), e.get("t"))))
    return out


def h_container(eng, e, st, fr):
    m = e["fn"].rsplit("::", 1)[1]
    cls = e["fn"].split("::")[-2]
    t = e.get("t")
    ts = strip_t(t or "")
    if e.get("obj") is None:
        return NotImplemented
    out = []
    iterish = "iterator" in cls
    for s, l in _obj_locs(eng, e, st, fr):
        v = eng.read(s, l, None if not iterish else e["obj"].get("t"))
        if eng.seq:
            r = _seq.seq_op(eng, e, s, fr, l, v, cls, m)
            if r is not None:
                out += r
                continue
        args = [a for a in e.get("a") or [] if a.get("k") != "defarg"]
        for s2, vs in eng.ev_args(None, dict(e, a=args), args, s, fr):
            vals = tuple(eng.argval(s2, x, a.get("t")) for x, a in zip(vs, args))
            if eng.on_access and not iterish and l[0] == "F":
                pass
            if m in ("size", "length"):
                out.append((s2, size_of(eng, s2, v)))
            elif m == "empty":
                out.append((s2, mk_eq0(size_of(eng, s2, v))))
            elif m in ("operator->", "operator*") and iterish:
                loc = ("D", v)
                if m == "operator->":
                    out.append((s2, v))
                else:
                    out.append((s2, ("ref", loc)) if eng.is_record(ts) else (s2, eng.read(s2, loc, ts)))
                    if (e.get("t") or "").endswith("&") or True:
                        pass
            elif m in ("operator++", "operator--") and iterish:
                nv = op("next" if m == "operator++" else "prev", v)
                eng.typed(nv, e["obj"].get("t"))
                s2.store[l] = nv
                out.append((s2, nv if not vals else v))
            elif m in ("operator[]", "at", "front", "back", "top") and not (cls in ("map", "unordered_map") and m == "operator[]"):
                i = vals[0] if vals else (ZERO if m == "front" else sub(size_of(eng, s2, v), ONE) if m == "back" else ("s", m))
                if cls in ("map", "unordered_map", "queue", "priority_queue", "stack", "list"):
                    i = vals[0] if vals else ("s", m)
                    eloc = ("I", l, i)
                    ent = ("I", ("D", v), i) if False else eloc
                    val = s2.store.get(ent)
                    if eng.is_record(ts):
                        out.append((s2, ("ref", ent)))
                    elif val is not None:
                        out.append((s2, ("ref", ent)))
                    else:
                        r = eng.typed(op("at", v, i), ts)
                        s2.store[ent] = r
                        out.append((s2, ("ref", ent)))
                    if m == "at":
                        s2.events = s2.events + (Event("index", cls + "::at", l, (v, i), None, e.get("l", 0), eng.file, e, s2.facts),)
                    continue
                s2.events = s2.events + (Event("index", cls + "::" + m, l, (v, i), None, e.get("l", 0), eng.file, e, s2.facts.copy()),)
                ent = ("I", l, i)
                val = s2.store.get(ent)
                if val is None and v[0] == "op" and v[1] == "list" and i[0] == "c" and 0 <= i[1] < len(v) - 2:
                    val = v[2 + i[1]]
                    out.append((s2, val))
                elif val is None and v[0] == "s" and i[0] == "c" and 0 <= i[1] < len(v[1]):
                    out.append((s2, c(ord(v[1][i[1]]))))
                elif eng.is_record(ts):
                    out.append((s2, ("ref", ent)))
                else:
                    if val is None and v[0] != "in":
                        s2.store[ent] = eng.typed(op("at", v, i), ts)
                    out.append((s2, ("ref", ent)))
            elif m == "operator[]":
                # map[k]: inserts; value slot
                eloc = ("I", l, vals[0])
                s2.events = s2.events + (Event("mcall", cls + "::operator[]", l, (v,) + vals, None, e.get("l", 0), eng.file, e, s2.facts),)
                if eloc not in s2.store and not eng.is_record(ts):
                    s2.store[eloc] = eng.typed(op("at", v, vals[0]), ts)
                out.append((s2, ("ref", eloc)))
            elif m == "operator=":
                nv = vals[0]
                if eng.seq and (e.get("pm") or [""])[0] == "c":
                    nv = _seq.clone(eng, s2, nv)
                elif eng.seq and vs[0][0] == "ref" and nv[0] == "op" and nv[1] == "seq" and eng._root(vs[0][1])[0] != "T":
                    s2.store[vs[0][1]] = op("empty", ("s", "std::" + cls))
                eng.write(s2, l, nv, e, fr)
                for k in list(s2.store):
                    if k != l and under(k, l):
                        del s2.store[k]
                out.append((s2, ("ref", l)))
            elif m in ("data", "c_str") and not vals and eng.mem:
                eng.celltype[("cont", l)] = strip_t(e["obj"].get("t", ""))
                out.append((s2, ("ptr", l, 0)))
            elif m in ("data", "c_str") and not vals:
                out.append((s2, eng.typed(op("data", v if v[0] != "ref" else l), ts)))
            elif m == "clear":
                eng.write(s2, l, op("empty", ("s", "std::" + cls)), e, fr)
                for k in list(s2.store):
                    if k != l and under(k, l):
                        del s2.store[k]
                s2.events = s2.events + (Event("mcall", cls + "::clear", l, (v,), None, e.get("l", 0), eng.file, e),)
                out.append((s2, op("void")))
            elif m in ("reserve", "shrink_to_fit"):
                s2.events = s2.events + (Event("mcall", cls + "::" + m, l, (v,) + vals, None, e.get("l", 0), eng.file, e, s2.facts.copy()),)
                out.append((s2, op("void")))
            elif m.startswith("~"):
                out.append((s2, op("void")))
            elif m in ("append", "operator+=") and cls == "basic_string" and len(vals) == 1:
                parts = list(v[2:]) if v[0] == "op" and v[1] == "concat" else ([] if v == ("s", "") or (v[0] == "op" and v[1] == "empty") else [v])
                nv = op("concat", *(parts + [vals[0]]))
                if all(x[0] == "s" for x in parts + [vals[0]]):
                    nv = ("s", "".join(x[1] for x in parts + [vals[0]]))
                eng.write(s2, l, nv, e, fr)
                out.append((s2, ("ref", l)))
            elif e.get("const") or m in NONMUT:
                r = eng.typed(op("m:" + m, v, *vals), ts)
                if m in ("begin", "cbegin") and l is not None:
                    r = op("m:begin", v, ("addr", l))
                out.append((s2, r))
                s2.events = s2.events + (Event("mcall", cls + "::" + m, l, (v,) + vals, r, e.get("l", 0), eng.file, e, s2.facts),)
            else:
                nv = op("u:" + m, v, *vals)
                r = eng.typed(op("r:" + m, v, *vals), ts)
                s2.events = s2.events + (Event("mcall", cls + "::" + m, l, (v,) + vals, r, e.get("l", 0), eng.file, e, s2.facts.copy()),)
                eng.write(s2, l, nv, e, fr)
                for k in list(s2.store):
                    if k != l and under(k, l):
                        if m in ("push_back", "emplace_back"):
                            continue
                        del s2.store[k]
                if m in ("emplace_back",) and (t or "").rstrip().endswith("&"):
                    r = ("ref", ("I", l, size_of(eng, s2, v)))
                out.append((s2, ("ref", l)) if (t or "").rstrip().endswith("&") and m.startswith("operator") else (s2, r))
    # values expected by non-lvalue users
    res = []
    for s, v in out:
        res.append((s, v))
    return res


import mem as _mem  # noqa: E402
