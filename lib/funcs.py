"""std::function values: a lambda, or empty."""
from dom import NULL, ONE, ZERO, op

EMPTY = op("empty", ("s", "std::function"))


def is_empty(v):
    return v == NULL or v is not None and v[0] == "op" and v[1] in ("empty", "moved", "list")


def enable(eng):
    eng.handlers.update({"std::function::operator bool": h_bool, "std::function::operator=": h_assign, "std::function::swap": h_swap,
                         "std::function::operator()": h_call})
    return eng


def h_bool(eng, e, st, fr):
    out = []
    for s, l in eng.lv(e["obj"], st, fr):
        v = eng.read(s, l, e["obj"].get("t"))
        if v is not None and v[0] == "lam":
            out.append((s, ONE))
        elif is_empty(v):
            out.append((s, ZERO))
        else:
            return NotImplemented
    return out


def h_assign(eng, e, st, fr):
    """moving from a function empties it"""
    out = []
    for s, l in eng.lv(e["obj"], st, fr):
        a = e["a"][0]
        for s2, l2 in eng.lv(a, s, fr):
            v = eng.read(s2, l2, a.get("t"))
            if v is not None and v[0] == "ref":
                v = eng.read(s2, v[1], a.get("t"))
            if a.get("k") == "call" and a.get("fn") == "std::move" and l2 != l:
                s2.store[l2] = EMPTY
            s2.store[l] = v if v is not None else EMPTY
            out.append((s2, ("ref", l)))
    return out


def h_swap(eng, e, st, fr):
    out = []
    for s, l in eng.lv(e["obj"], st, fr):
        for s2, l2 in eng.lv(e["a"][0], s, fr):
            a, b = eng.read(s2, l, e["obj"].get("t")), eng.read(s2, l2, e["obj"].get("t"))
            s2.store[l], s2.store[l2] = b or EMPTY, a or EMPTY
            out.append((s2, op("void")))
    return out


def h_call(eng, e, st, fr):
    out = []
    for s, l in eng.lv(e["obj"], st, fr):
        v = eng.read(s, l, e["obj"].get("t"))
        if is_empty(v):
            out.append((s, ("throw",)))
    return out or eng.call_lambda(e, st, fr) or NotImplemented
