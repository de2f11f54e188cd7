"""Bit-provenance domain: every bit of a machine integer is a GF(2)-linear form
over named input bits.  Bitwise operators, constant shifts, zero/sign
extension, truncation and negation of a 0/1 value are exact; anything else
falls back to the caller's opaque term.  Path facts about bits are kept as a
reduced system of GF(2) equations.

A form is a pair (constant, frozenset of atoms); an atom is (term, index)."""
from dom import ONE, ZERO, c, lin_parts, op, strip_t, sub

WIDTH = {"bool": (1, False), "char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True),
         "unsigned short": (16, False), "int": (32, True), "unsigned int": (32, False), "long": (64, True),
         "unsigned long": (64, False), "float": (32, True), "double": (64, True), "long long": (64, True), "unsigned long long": (64, False)}
F0 = (0, frozenset())
F1 = (1, frozenset())


def width(ty):
    return WIDTH.get(strip_t(ty or ""))


def xor(a, b):
    return (a[0] ^ b[0], a[1] ^ b[1])


def freeze(bits):
    return tuple((k, tuple(sorted(s, key=repr))) for k, s in bits)


def thaw(bits):
    return [(k, frozenset(s)) for k, s in bits]


def reduce(facts, f):
    gf = facts.gf
    if not gf or not f[1]:
        return f
    # gf is kept fully reduced: pivots do not occur in the right-hand sides
    for a in list(f[1]):
        e = gf.get(a)
        if e is not None:
            f = xor((f[0], f[1] ^ {a}), e)
    return f


def add_eq(facts, f):
    """assume form == 0; False when contradictory"""
    f = reduce(facts, f)
    if not f[1]:
        return f[0] == 0
    piv = max(f[1], key=repr)
    rhs = (f[0], f[1] - {piv})
    gf = {}
    for a, e in facts.gf.items():
        if piv in e[1]:
            e = xor((e[0], e[1] - {piv}), rhs)
        gf[a] = e
    gf[piv] = rhs
    facts.gf = gf
    return True


def extend(bits, w, signed):
    if len(bits) >= w:
        return bits[:w]
    return bits + [bits[-1] if signed else F0] * (w - len(bits))


def tobits(eng, facts, t, w, signed=None):
    """bits of the value t at width w, or None"""
    k = t[0]
    if k == "c":
        n = t[1] % (1 << w)
        return [F1 if (n >> i) & 1 else F0 for i in range(w)]
    if k in ("eq0", "ge0", "not"):
        v = facts.truth(t)
        if v is not None:
            return [F1 if v else F0] + [F0] * (w - 1)
        return [(0, frozenset([(t, 0)]))] + [F0] * (w - 1)
    if k == "op" and t[1] == "bits":
        wd = width(t[2])
        return [reduce(facts, b) for b in extend(thaw(t[3]), w, wd[1])]
    if k == "op" and t[1] in ("cast", "wrap"):
        wd = width(t[2])
        if wd is None:
            return None
        b = tobits(eng, facts, t[3], wd[0])
        return None if b is None else extend(b, w, wd[1])
    if k == "lin":
        b = lin_bits(eng, facts, t, w)
        if b is not None:
            return b
        # bit i of the mathematical integer
        return [reduce(facts, (0, frozenset([(t, i)]))) for i in range(w)]
    if k in ("v", "in", "op"):
        wd = width(eng.ttype.get(t))
        if wd is None:
            return None
        if wd[0] == 1:
            v = facts.truth(t)
            if v is not None:
                return [F1 if v else F0] + [F0] * (w - 1)
        b = [reduce(facts, (0, frozenset([(t, i)]))) for i in range(wd[0])]
        # sign known from the linear facts
        if wd[1] and b[-1][1] and facts.entails_ge0(t):
            b[-1] = F0
        return extend(b, w, wd[1])
    return None


def lin_bits(eng, facts, t, w):
    n, parts = lin_parts(t)
    # sum of terms with disjoint non-zero bits, and -b for a 0/1 value b
    acc = tobits(eng, facts, c(n), w)
    for a, m in parts:
        if m == -1:
            b = tobits(eng, facts, a, w)
            if b is None or any(x != F0 for x in b[1:]):
                return None
            b = [b[0]] * w
        else:
            if m <= 0 or m & (m - 1):
                return None
            b = tobits(eng, facts, a, w)
            if b is None:
                return None
            s = m.bit_length() - 1
            b = ([F0] * s + b)[:w]
        if any(x != F0 and y != F0 for x, y in zip(acc, b)):
            return None
        acc = [x if y == F0 else y for x, y in zip(acc, b)]
    return acc


def mk(eng, facts, bits, ty):
    """term for the bits at type ty"""
    w, signed = width(ty)
    bits = [reduce(facts, b) for b in bits[:w]]
    if all(not b[1] for b in bits):
        n = sum(b[0] << i for i, b in enumerate(bits))
        if signed and bits[-1][0]:
            n -= 1 << w
        return c(n)
    # a whole term?
    for i, b in enumerate(bits):
        if b[0] == 0 and len(b[1]) == 1:
            (t, j), = b[1]
            if j == 0 and i == 0:
                if t[0] in ("eq0", "ge0", "not"):
                    if all(x == F0 for x in bits[1:]):
                        return t
                    break
                full = tobits(eng, facts, t, w)
                wt = width(eng.ttype.get(t))
                if full == bits and t[0] == "lin":
                    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
                    if signed or (facts.entails_ge0(sub(t, c(lo))) and facts.entails_ge0(sub(c(hi), t))):
                        return t    # signed arithmetic does not overflow
                    return op("cast", strip_t(ty), t)
                if full == bits and wt:
                    if wt[0] < w or (wt[0] == w and wt[1] == signed):
                        if wt[0] < w and wt[1] and not signed and full[-1] != F0:
                            return op("cast", strip_t(ty), t)
                        return t
                    return op("cast", strip_t(ty), t)
            break
        break
    if bits[0][1]:
        pass
    # a term that is partly fixed by the facts
    for b in bits:
        for (t, j) in b[1]:
            if t[0] in ("eq0", "ge0", "not", "lin"):
                continue
            full = tobits(eng, facts, t, w)
            wt = width(eng.ttype.get(t))
            if full == bits and wt and (wt[0] < w or wt[1] == signed or full[-1] == F0):
                return t
        if b[1]:
            break
    r = op("bits", strip_t(ty), freeze(bits))
    return eng.typed(r, ty)


def arith(eng, st, o, x, y, ty):
    """bitwise result or None"""
    wd = width(ty)
    if wd is None:
        return None
    w, signed = wd
    f = st.facts
    if o in ("<<", ">>"):
        if y[0] != "c":
            yb = tobits(eng, f, y, 32)
            if yb is None or any(b[1] for b in yb):
                return None
            y = c(sum(b[0] << i for i, b in enumerate(yb)))
        k = y[1]
        if k < 0 or k >= w:
            return None
        b = tobits(eng, f, x, w)
        if b is None:
            return None
        b = ([F0] * k + b)[:w] if o == "<<" else b[k:] + [b[-1] if signed else F0] * k
        return mk(eng, f, b, ty)
    a, b = tobits(eng, f, x, w), tobits(eng, f, y, w)
    if a is None or b is None:
        return None
    out = []
    for p, q in zip(a, b):
        if o == "^":
            out.append(xor(p, q))
        elif o == "&":
            if p == F0 or q == F0:
                out.append(F0)
            elif p == F1:
                out.append(q)
            elif q == F1 or p == q:
                out.append(p)
            elif xor(p, q) == F1:
                out.append(F0)
            else:
                return None
        else:
            if p == F1 or q == F1:
                out.append(F1)
            elif p == F0:
                out.append(q)
            elif q == F0 or p == q:
                out.append(p)
            elif xor(p, q) == F1:
                out.append(F1)
            else:
                return None
    return mk(eng, f, out, ty)


def inv(eng, st, v, ty):
    wd = width(ty)
    if wd is None:
        return None
    b = tobits(eng, st.facts, v, wd[0])
    return None if b is None else mk(eng, st.facts, [xor(x, F1) for x in b], ty)


def narrow(eng, st, t, ty):
    wd = width(ty)
    if wd is None or ty == "bool":
        return None
    b = tobits(eng, st.facts, t, wd[0])
    return None if b is None else mk(eng, st.facts, b, ty)


def bits_eq0(facts, l):
    """(bits, constant) of `bits term - constant == 0`, else None"""
    n, p = lin_parts(l)
    if len(p) != 1 or p[0][1] not in (1, -1):
        return None
    a, m = p[0]
    if a[0] != "op" or a[1] != "bits":
        return None
    n = -n * m
    w = len(a[3])
    return thaw(a[3]), n, w, WIDTH[a[2]][1]


def eq_truth(facts, t):
    """truth of eq0 over a bits term, or None"""
    r = bits_eq0(facts, t[1])
    if r is None:
        return None
    b, n, w, signed = r
    if not (-(1 << (w - 1)) <= n < (1 << (w - 1)) if signed else 0 <= n < (1 << w)):
        return False
    n %= 1 << w
    allz = True
    for i, x in enumerate(b):
        x = reduce(facts, x)
        if (n >> i) & 1:
            x = xor(x, F1)
        if x == F1:
            return False
        if x != F0:
            allz = False
    return True if allz else None


def eq_assume(facts, t, val):
    r = bits_eq0(facts, t[1])
    if r is None:
        return True
    b, n, w, signed = r
    n %= 1 << w
    ds = []
    for i, x in enumerate(b):
        x = reduce(facts, x)
        if (n >> i) & 1:
            x = xor(x, F1)
        ds.append(x)
    if val:
        return all(add_eq(facts, x) for x in ds)
    open_ = {x for x in ds if x[1]}
    if len(open_) == 1 and all(x == F0 or x[1] for x in ds):
        x, = open_
        return add_eq(facts, xor(x, F1))
    return True


def same(eng, facts, x, y, ty):
    """do the two terms have the same bits at type ty under the facts"""
    if x == y:
        return True
    wd = width(ty)
    a, b = tobits(eng, facts, x, wd[0]), tobits(eng, facts, y, wd[0])
    if a is None or b is None:
        return False
    return all(reduce(facts, xor(p, q)) == F0 for p, q in zip(a, b))


def decide(eng, facts, o, x, y):
    """comparison of two integers whose bits decide it, else None"""
    w = 66
    a, b = tobits(eng, facts, x, w), tobits(eng, facts, y, w)
    if a is None or b is None:
        return None
    if o in ("==", "!="):
        d = [reduce(facts, xor(p, q)) for p, q in zip(a, b)]
        if any(i == F1 for i in d):
            return o == "!="
        return (o == "==") if all(i == F0 for i in d) else None
    for i in range(w - 1, -1, -1):
        d = reduce(facts, xor(a[i], b[i]))
        if d == F0:
            continue
        if d != F1 or a[i][1]:
            return None
        less = (a[i] == F1) if i == w - 1 else (a[i] == F0)
        return less if o in ("<", "<=") else not less
    return o in ("<=", ">=")
