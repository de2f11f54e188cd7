"""Constant folding of floating point values ("f", text)."""
import math
import struct

from dom import c


def num(v):
    if v is None or v[0] != "f":
        return None
    try:
        return float(v[1])
    except (TypeError, ValueError):
        return None


def val(x, t="double"):
    if t == "float":
        try:
            x = struct.unpack("f", struct.pack("f", x))[0]
        except OverflowError:
            x = math.copysign(math.inf, x)
    return ("f", repr(x))


def arith(o, x, y, t):
    a, b = num(x), num(y)
    if a is None or b is None:
        return None
    if o == "/" and b == 0:
        return val(math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b))
    try:
        return val({"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[o](), t)
    except (KeyError, OverflowError):
        return None


def compare(o, x, y):
    a, b = num(x), num(y)
    if a is None or b is None:
        return None
    return c({"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o])


def cast(kind, v, to):
    if kind == "IntegralToFloating" and v[0] == "c":
        return val(float(v[1]), to)
    a = num(v)
    if a is None:
        return None
    if kind == "FloatingCast":
        return val(a, to)
    if kind == "FloatingToIntegral" and math.isfinite(a):
        return c(int(a))
    return None


FN = {"log": math.log, "log2": math.log2, "log10": math.log10, "exp": math.exp, "sqrt": math.sqrt, "floor": lambda x: float(math.floor(x)), "ceil": lambda x: float(math.ceil(x)),
      "round": lambda x: math.copysign(float(math.floor(abs(x) + 0.5)), x), "trunc": lambda x: float(int(x)), "fabs": abs, "abs": abs}


def call(name, v):
    a = num(v) if v[0] != "c" else float(v[1])
    if a is None:
        return None
    try:
        return val(FN[name](a))
    except (ValueError, OverflowError):
        return None
