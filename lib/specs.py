"""helpers shared by the property modules"""
from absint import size_of
from dom import NULL, ONE, ZERO, add, c, contains, ge, mk_eq0, mk_ge0, not_, op, strip_t, sub
from rules import AnalysisBroken, Path, show, teq

THIS = ("D", ("v", "this"))


def lt(a, b):
    return mk_ge0(sub(sub(b, a), ONE))


def le(a, b):
    return ge(b, a)


def eq(a, b):
    return mk_eq0(sub(a, b))


def params(f):
    return [("v", p["n"] or "arg%d" % i) for i, p in enumerate(f["params"])]


def pref(f, i):
    """location a reference parameter designates by default"""
    return ("D", ("v", "&" + (f["params"][i]["n"] or "arg%d" % i)))


def strarg(eng, st, text, name="str"):
    """a constant string passed by const reference"""
    l = ("D", ("v", "&const:" + name))
    st.store[l] = ("s", text)
    return ("ref", l)


def constref(eng, st, val, name="ref"):
    l = ("D", ("v", "&const:" + name))
    st.store[l] = val
    return ("ref", l)


def call(ck, f, this=None, args=None, st=None, eng=None, **kw):
    """run one function; list of paths"""
    return ck.run(f, eng, this=this, args=args, st=st, **kw)


def loc_of(eng, v):
    """object location a returned pointer/reference/value designates"""
    if v[0] == "ref":
        return v[1]
    if v[0] == "addr":
        return v[1]
    if v[0] == "okv":
        return loc_of(eng, v[1])
    return eng.deref(v)


def value(p, v=None):
    """scalar behind a possibly-reference result"""
    v = p.val if v is None else v
    if v is not None and v[0] == "ref":
        return p.eng.read(p.st, v[1], None)
    return v


def only(paths, what):
    if len(paths) != 1:
        raise AnalysisBroken("%s has %d paths" % (what, len(paths)))
    return paths[0]


# ---------------------------------------------------------------- formulas over a path's facts
def AND(*fs):
    return ("&",) + fs


def OR(*fs):
    return ("|",) + fs


def NOT(f):
    return ("!", f)


def IFF(a, b):
    return OR(AND(a, b), AND(NOT(a), NOT(b)))


def IMP(a, b):
    return OR(NOT(a), b)


def ev3(facts, f):
    """three-valued truth of a formula and one undetermined atom"""
    if f is True or f is False:
        return f, None
    k = f[0]
    if k == "!":
        v, a = ev3(facts, f[1])
        return (None if v is None else not v), a
    if k in ("&", "|"):
        stop = k == "|"
        und = None
        for g in f[1:]:
            v, a = ev3(facts, g)
            if v is stop:
                return stop, None
            if v is None and und is None:
                und = a
        return (None, und) if und is not None else (not stop, None)
    v = facts.truth(f)
    return v, (f if v is None else None)


def valid(facts, f, budget=4000):
    """(True, None) when the formula holds for every value the facts admit,
    else (False, refined facts that refute it)"""
    stack = [facts]
    while stack:
        g = stack.pop()
        budget -= 1
        if budget < 0:
            raise AnalysisBroken("formula too large to decide")
        v, a = ev3(g, f)
        if v is True:
            continue
        if v is False:
            return False, g
        for tv in (True, False):
            h = g.copy()
            if h.assume(a, tv) is not False:
                stack.append(h)
    return True, None


def feasible(facts, f, budget=4000):
    return not valid(facts, NOT(f), budget)[0]


def show_facts(g):
    return [show(("ge0", l)) for l in g.lins] + ["%s%s" % ("" if t else "not ", show(a)) for a, t in g.atoms.items()]


# ---------------------------------------------------------------- containers of known shape
def vec(eng, st, loc, elems, et):
    """store a container with the given element values at loc"""
    import seq
    st.store[loc] = op("seq", *[seq.put(eng, st, e, et) for e in elems])
    return ("ref", loc)


def cells_of(p, v):
    """cells of a returned container"""
    import seq
    if v is not None and v[0] == "ref":
        return seq.cells(p.eng, p.st, v[1])
    if v is not None and v[0] == "okv":
        return cells_of(p, v[1])
    if v is not None and v[0] == "op" and v[1] == "seq":
        return list(v[2:])
    if v is not None and v[0] == "op" and v[1] == "empty":
        return []
    if v is not None and v[0] == "op" and v[1] == "list":
        return list(v[2:])
    return None


def field(p, ref, name, t=None):
    """field of the object a value designates"""
    return p.eng.read(p.st, ("F", loc_of(p.eng, ref), name), t)


def lost(t):
    """does the term contain a part the analysis could not follow"""
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == "in" or (t[0] == "v" and "#" in str(t[1])) or (t[0] == "op" and str(t[1]).startswith("call")):
        return True
    return any(lost(x) for x in t[1:])


def need(terms, what):
    """stop when a value is not understood (never a verdict)"""
    for t in terms:
        if lost(t):
            raise AnalysisBroken("%s: value not understood: %s" % (what, show(t)))
