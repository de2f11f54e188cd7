"""Abstract domains: terms (Herbrand value numbering with linear normal form)
and linear-inequality facts.

Terms are tuples.  Integer-valued terms are kept in linear normal form
  ('c', n)                      constant
  ('lin', n, ((atom, k), ...))  n + sum k*atom, atoms non-linear terms
Everything else is an atom: ('v', name), ('in', loc, epoch), ('op', name, ...),
('addr', loc), ('ref', loc), ('null',), ('s', text), ('err', code), ('ok',),
('okv', t), ('none',), ('some', t), ('lam', n).
Comparisons of integers are ('ge0', lin) and ('eq0', lin).
"""
import functools
import itertools

INT = {
    "bool": (0, 1), "char": (-128, 127), "signed char": (-128, 127), "unsigned char": (0, 255),
    "short": (-2 ** 15, 2 ** 15 - 1), "unsigned short": (0, 2 ** 16 - 1),
    "int": (-2 ** 31, 2 ** 31 - 1), "unsigned int": (0, 2 ** 32 - 1),
    "long": (-2 ** 63, 2 ** 63 - 1), "unsigned long": (0, 2 ** 64 - 1),
    "long long": (-2 ** 63, 2 ** 63 - 1), "unsigned long long": (0, 2 ** 64 - 1),
    "__int128": (-2 ** 127, 2 ** 127 - 1), "unsigned __int128": (0, 2 ** 128 - 1),
    "wchar_t": (-2 ** 31, 2 ** 31 - 1), "char16_t": (0, 65535), "char32_t": (0, 2 ** 32 - 1),
}


@functools.lru_cache(maxsize=None)
def strip_t(t):
    """canonical type without cv and reference"""
    if t is None:
        return "?"
    t = t.strip()
    while True:
        o = t
        for suf in ("&&", "&", " const", "const"):
            if t.endswith(suf) and (suf != "const" or t.endswith("*const")):
                t = t[: -len(suf)].strip()
        if t.startswith("const ") and not t.endswith("*"):
            t = t[6:]
        if t.startswith("volatile "):
            t = t[9:]
        if t == o:
            return t


def is_int(t):
    return strip_t(t) in INT


def is_ptr(t):
    return strip_t(t).endswith("*")


def c(n):
    return ("c", int(n))


ZERO = c(0)
ONE = c(1)
NULL = ("null",)
OK = ("ok",)


_key_cache = {}


def _key(a):
    k = _key_cache.get(a)
    if k is None:
        k = repr(a)
        _key_cache[a] = k
    return k


def lin_parts(t):
    if t[0] == "c":
        return t[1], ()
    if t[0] == "lin":
        return t[1], t[2]
    return 0, ((t, 1),)


def mk_lin(n, parts):
    d = {}
    for a, k in parts:
        d[a] = d.get(a, 0) + k
    items = [(a, k) for a, k in d.items() if k != 0]
    if not items:
        return ("c", n)
    if n == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: _key(x[0]))
    return ("lin", n, tuple(items))


def add(a, b):
    n1, p1 = lin_parts(a)
    n2, p2 = lin_parts(b)
    return mk_lin(n1 + n2, p1 + p2)


def scale(a, k):
    n, p = lin_parts(a)
    return mk_lin(n * k, tuple((x, y * k) for x, y in p))


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def ge(a, b):
    """a >= b"""
    return mk_ge0(sub(a, b))


def mk_ge0(l):
    n, p = lin_parts(l)
    if not p:
        return c(1 if n >= 0 else 0)
    g = 0
    import math
    for _, k in p:
        g = math.gcd(g, abs(k))
    if g > 1:
        l = mk_lin(n // g if n >= 0 else -((-n + g - 1) // g), tuple((a, k // g) for a, k in p))
    return ("ge0", l)


def mk_eq0(l):
    n, p = lin_parts(l)
    if not p:
        return c(1 if n == 0 else 0)
    if p[0][1] < 0:
        l = neg(l)
    return ("eq0", l)


def not_(t):
    if t[0] == "c":
        return c(0 if t[1] else 1)
    if t[0] == "ge0":
        return mk_ge0(sub(neg(t[1]), ONE))
    if t[0] == "not":
        return t[1]
    return ("not", t)


def op(name, *args):
    return ("op", name) + tuple(args)


def subterms(t):
    """all sub-tuples that look like terms"""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            stack.extend(y for y in x if isinstance(y, tuple))


def contains(t, sub_):
    return any(x == sub_ for x in subterms(t))


def subst(t, m):
    """replace terms by the map m (bottom up re-normalising linear forms)"""
    if t in m:
        return m[t]
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "lin":
        r = c(t[1])
        for a, k in t[2]:
            r = add(r, scale(subst(a, m), k))
        return r
    if t[0] == "ge0":
        return mk_ge0(subst(t[1], m))
    if t[0] == "eq0":
        return mk_eq0(subst(t[1], m))
    if t[0] == "not":
        return not_(subst(t[1], m))
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)


def strip_casts(t):
    """drop integer conversions (used where a rule compares values, not widths)"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "op" and t[1] == "cast":
        return strip_casts(t[3])
    if t[0] == "op" and t[1] == "wrap":
        return strip_casts(t[3])
    if t[0] == "lin":
        r = c(t[1])
        for a, k in t[2]:
            r = add(r, scale(strip_casts(a), k))
        return r
    if t[0] == "ge0":
        return mk_ge0(strip_casts(t[1]))
    if t[0] == "eq0":
        return mk_eq0(strip_casts(t[1]))
    if t[0] == "not":
        return not_(strip_casts(t[1]))
    return tuple(strip_casts(x) if isinstance(x, tuple) else x for x in t)


def diff_unsat(cons):
    """emptiness of a system of difference constraints (exact); None when the
    system is not of that form"""
    idx = {}
    edges = {}
    for n, p in cons:
        if len(p) == 0:
            if n < 0:
                return True
            continue
        it = list(p.items())
        if len(it) == 1:
            a, k = it[0]
            i = idx.setdefault(a, len(idx) + 1)
            if k > 0:
                e, w = (i, 0), n // k        # x >= -n/k  <=>  0 - x <= floor(n/k)
            else:
                e, w = (0, i), n // -k
        elif len(it) == 2:
            (a, k), (b, m) = it
            if k != -m:
                return None
            if k < 0:
                a, b, k = b, a, -k
            i = idx.setdefault(a, len(idx) + 1)
            j = idx.setdefault(b, len(idx) + 1)
            e, w = (i, j), n // k            # b - a <= n/k
        else:
            return None
        if e not in edges or edges[e] > w:
            edges[e] = w
    # edge (i, j, w): x_j - x_i <= w; empty iff there is a negative cycle
    d = [0] * (len(idx) + 1)
    es = [(i, j, w) for (i, j), w in edges.items()]
    for _ in range(len(d)):
        ch = False
        for i, j, w in es:
            v = d[i] + w
            if v < d[j]:
                d[j] = v
                ch = True
        if not ch:
            return False
    return True


def fm_unsat(cons, limit=400):
    """Fourier-Motzkin over integers (with gcd tightening); cons: list of
    (const, {atom: k}) meaning const + sum >= 0.  True: certainly empty."""
    r = diff_unsat(cons)
    if r is not None:
        return r
    idx = {}
    cons = [(n, {idx.setdefault(a, len(idx)): k for a, k in p.items()}) for n, p in cons]
    seen = set()
    while True:
        for n, p in cons:
            if not p and n < 0:
                return True
        vars_ = {}
        for n, p in cons:
            for a, k in p.items():
                pos, ng = vars_.get(a, (0, 0))
                if k > 0:
                    vars_[a] = (pos + 1, ng)
                else:
                    vars_[a] = (pos, ng + 1)
        if not vars_:
            return False
        a = min(vars_, key=lambda v: vars_[v][0] * vars_[v][1] - vars_[v][0] - vars_[v][1])
        pos, ng = vars_[a]
        rest = [x for x in cons if a not in x[1]]
        if pos and ng:
            P = [x for x in cons if x[1].get(a, 0) > 0]
            N = [x for x in cons if x[1].get(a, 0) < 0]
            if len(P) * len(N) + len(rest) > limit:
                return False
            for (n1, p1), (n2, p2) in itertools.product(P, N):
                k1 = p1[a]
                k2 = -p2[a]
                n = n1 * k2 + n2 * k1
                d = {}
                for x, k in p1.items():
                    d[x] = d.get(x, 0) + k * k2
                for x, k in p2.items():
                    d[x] = d.get(x, 0) + k * k1
                d = {x: k for x, k in d.items() if k}
                import math
                g = 0
                for k in d.values():
                    g = math.gcd(g, abs(k))
                if g > 1:
                    n = n // g
                    d = {x: k // g for x, k in d.items()}
                key = (n, tuple(sorted(d.items())))
                if key in seen:
                    continue
                seen.add(key)
                if not d and n < 0:
                    return True
                rest.append((n, d))
        # keep the strongest of constraints with equal left sides
        best = {}
        for n, p in rest:
            key = tuple(sorted(p.items()))
            if key not in best or best[key][0] > n:
                best[key] = (n, p)
        cons = list(best.values())


class Facts:
    """Conjunction of linear facts and truth values of atoms."""

    __slots__ = ("lins", "neqs", "atoms", "_memo", "rangef", "gf")

    def __init__(self, rangef):
        self.lins = ()
        self.neqs = frozenset()
        self.atoms = {}
        self._memo = {}
        self.rangef = rangef
        self.gf = None      # GF(2) facts about bits (bits.py); None: domain off

    def copy(self):
        f = Facts.__new__(Facts)
        f.lins = self.lins
        f.neqs = self.neqs
        f.atoms = dict(self.atoms)
        f._memo = self._memo
        f.rangef = self.rangef
        f.gf = self.gf
        return f

    def _cons_for(self, atoms):
        """constraints connected to the atoms, with ranges"""
        want = set(atoms)
        used = []
        pool = list(self.lins)
        changed = True
        while changed:
            changed = False
            for l in list(pool):
                if any(a in want for a, _ in l[2]):
                    used.append(l)
                    pool.remove(l)
                    for a, _ in l[2]:
                        want.add(a)
                    changed = True
        cons = [(l[1], dict(l[2])) for l in used]
        todo = list(want)
        done = set()
        while todo:
            a = todo.pop()
            if a in done:
                continue
            done.add(a)
            for l in self.rangef(a):
                n, p = lin_parts(l)
                cons.append((n, dict(p)))
                for x, _ in p:
                    if x not in done and x not in want:
                        want.add(x)
                        todo.append(x)
        return cons

    def entails_ge0(self, l):
        n, p = lin_parts(l)
        if not p:
            return n >= 0
        key = (l, self.lins)
        r = self._memo.get(key)
        if r is None:
            g = sub(neg(l), ONE)
            n, p = lin_parts(g)
            r = fm_unsat(self._cons_for([a for a, _ in p]) + [(n, dict(p))])
            self._memo[key] = r
        return r

    def entails(self, t):
        return self.truth(t) is True

    def truth(self, t):
        if t[0] == "c":
            return t[1] != 0
        if t[0] == "null" or t[0] == "none":
            return False
        if t[0] in ("addr", "s", "obj", "lam", "ref"):
            return True
        if t[0] == "not":
            r = self.truth(t[1])
            return None if r is None else not r
        if t[0] == "ge0":
            if self.entails_ge0(t[1]):
                return True
            if self.entails_ge0(sub(neg(t[1]), ONE)):
                return False
            return None
        if t[0] == "eq0":
            if t in self.neqs:
                return False
            if self.gf is not None:
                import bits
                r = bits.eq_truth(self, t)
                if r is not None:
                    return r
                if bits.bits_eq0(self, t[1]) is not None:
                    return None
            if self.entails_ge0(sub(t[1], ONE)) or self.entails_ge0(sub(neg(t[1]), ONE)):
                return False
            if self.entails_ge0(t[1]) and self.entails_ge0(neg(t[1])):
                return True
            if self.neqs and self.lins:
                # the same difference as a known disequality, modulo known equalities
                mine = {a for a, _ in lin_parts(t[1])[1]}
                for n in self.neqs:
                    if not any(a in mine for a, _ in lin_parts(n[1])[1]):
                        continue
                    for d in (sub(t[1], n[1]), add(t[1], n[1])):
                        if self.entails_ge0(d) and self.entails_ge0(neg(d)):
                            return False
            return None
        if t in self.atoms:
            return self.atoms[t]
        # integer term in boolean position
        if t[0] in ("lin",) or t[0] in ("v", "in", "op"):
            e = mk_eq0(t)
            if e[0] == "eq0" and (e in self.neqs):
                return True
            if t[0] == "lin" or (self.gf is not None and t[0] == "op" and t[1] == "bits"):
                r = self.truth(e)
                return None if r is None else not r
        return None

    def assume(self, t, val):
        """add the fact; False when it contradicts what is known"""
        if t[0] == "not":
            return self.assume(t[1], not val)
        r = self.truth(t)
        if r is not None:
            return r == val
        if t[0] == "ge0":
            l = t[1] if val else sub(neg(t[1]), ONE)
            n, p = lin_parts(l)
            self.lins = self.lins + (("lin", n, p),)
            self._tighten()
            return True
        if t[0] == "eq0":
            if self.gf is not None:
                import bits
                if not bits.eq_assume(self, t, val):
                    return False
                if bits.bits_eq0(self, t[1]) is not None:
                    if not val:
                        self.neqs = self.neqs | {t}
                    return True
            if val:
                n, p = lin_parts(t[1])
                self.lins = self.lins + (("lin", n, p),)
                n, p = lin_parts(neg(t[1]))
                self.lins = self.lins + (("lin", n, p),)
            else:
                self.neqs = self.neqs | {t}
                self._tighten()
            return True
        if t[0] == "lin" or (self.gf is not None and t[0] == "op" and t[1] == "bits"):
            return self.assume(mk_eq0(t), not val)
        self.atoms[t] = val
        if not val and t[0] in ("v", "in", "op"):
            pass
        return True

    def _tighten(self):
        for e in self.neqs:
            l = e[1]
            if self.gf is not None and any(a[0] == "op" and a[1] == "bits" for a, _ in lin_parts(l)[1]):
                continue
            if self.entails_ge0(l):
                s = sub(l, ONE)
            elif self.entails_ge0(neg(l)):
                s = sub(neg(l), ONE)
            else:
                continue
            if not self.entails_ge0(s):
                n, p = lin_parts(s)
                self.lins = self.lins + (("lin", n, p),)
