"""
What text a number is written as, and what a decoder makes of such a text.

A text term over a value X is classified into one of
  ("int",)            decimal digits of an integer, maybe signed
  ("float",)          shortest exact text of a float
  ("fint",)           digits of a float known to be integral
  ("radix", base, signed)   prefixed text; signed: also right for negative numbers
  ("lossy", why)      distinct numbers share the text
  ("bad", why)        formatting fails for some values
  ("boolstr",)        True / False
  ("const", text)
  ("str",)            the text is the attribute itself
  None                unknown
"""
import re
from .terms import T, mk, walk, conj, neg, is_const, cval, implies, C, FALSE

NUMERIC = {"int", "float", "bool"}
SPEC = re.compile(r"^(?P<sign>[+\- ])?(?P<alt>#)?(?P<zero>0)?(?P<width>\d+)?(?P<grp>[,_])?(?:\.(?P<prec>\d+))?"
                  r"(?P<type>[a-zA-Z%])?$")


def inst(x, name):
    return mk("inst", x, mk("ext", name))


def number_types(x, g, hints):
    h = {k for k in hints if k in NUMERIC or k == "str"}
    if not h or "any" in hints:
        h = h | {"int", "float"}
    for k in ("int", "float", "str"):
        if implies(g, inst(x, k)):
            h = {k} if k != "int" else (h & {"int", "bool"} or {"int"})
            break
    for k in ("int", "float", "str"):
        if implies(g, neg(inst(x, k))):
            h.discard(k)
            if k == "int":
                h.discard("bool")
    return h


def integral(x, g):
    """g says that x has no fraction"""
    for y in walk(g):
        c = None
        if y.op == "truthy" and y.a[0].op == "mcall" and y.a[0].a[0] is x and y.a[0].a[1] == "is_integer":
            c = y
        elif y.op == "mcall" and y.a[0] is x and y.a[1] == "is_integer":
            c = y
        elif y.op == "eq":
            a, b = y.a
            for p, q in ((a, b), (b, a)):
                if isinstance(p, T) and isinstance(q, T) and exact_of(p, x) and integer_part(q, x):
                    c = y
            if c is None and {C(0), C(0.0)} & {a, b}:
                o = b if a in (C(0), C(0.0)) else a
                if o.op == "bin" and o.a[0] == "Mod" and o.a[1] is x and o.a[2] in (C(1), C(1.0)):
                    c = y
        if c is not None and implies(g, c):
            return True
    return False


def exact_of(p, x):
    """p has exactly the value of x"""
    if p is x:
        return True
    if p.op == "call" and p.a[0] in ("decimal.Decimal", "float", "Decimal", "fractions.Fraction") and len(p.a) == 2:
        q = p.a[1]
        return exact_of(q, x) or (q.op == "call" and q.a[0] in ("str", "repr") and len(q.a) == 2 and exact_of(q.a[1], x))
    if p.op == "mcall" and p.a[1] == "normalize" and len(p.a) == 2:
        return exact_of(p.a[0], x)
    return False


def integer_part(p, x):
    if p.op == "mcall" and p.a[1] in ("to_integral", "to_integral_value", "to_integral_exact", "__int__", "__trunc__"):
        return exact_of(p.a[0], x)
    if p.op == "mcall" and p.a[1] == "quantize" and len(p.a) >= 3:
        return exact_of(p.a[0], x) and unit_exponent(p.a[2])
    if p.op == "call" and p.a[0] in ("int", "round", "math.floor", "math.ceil", "math.trunc") and len(p.a) == 2:
        return exact_of(p.a[1], x)
    if p.op == "call" and p.a[0] in ("float", "decimal.Decimal") and len(p.a) == 2:
        return integer_part(p.a[1], x)
    return False


def unit_exponent(t):
    return t.op == "call" and t.a[0] in ("decimal.Decimal", "Decimal") and t.a[1] in (C(1), C("1"))


def classify(t, x, g, hints):
    """class of the text t written for the number x under g"""
    if is_const(t):
        return ("const", cval(t)) if isinstance(cval(t), str) else None
    if t is x:
        ty = number_types(x, g, hints)
        return ("str",) if "str" in ty or not ty else None
    if t.op == "call" and len(t.a) == 2 and t.a[0] in ("str", "repr"):
        return plain(t.a[1], x, g, hints)
    if t.op == "call" and t.a[0] in ("hex", "oct", "bin") and len(t.a) == 2:
        return radix(t.a[1], x, g, hints, {"hex": 16, "oct": 8, "bin": 2}[t.a[0]], True)
    if t.op == "call" and t.a[0] == "format" and len(t.a) in (2, 3):
        if len(t.a) == 2:
            return plain(t.a[1], x, g, hints)
        return formatted(mk("fmt", t.a[1], "", cval(t.a[2])), x, g, hints) if is_const(t.a[2]) else None
    if t.op == "fmt":
        return formatted(t, x, g, hints)
    if t.op == "fstr":
        if len(t.a) == 1:
            return formatted(t.a[0], x, g, hints) if t.a[0].op == "fmt" else plain(t.a[0], x, g, hints)
        if len(t.a) == 2 and is_const(t.a[0]) and t.a[1].op == "fmt":
            return prefixed(cval(t.a[0]), t.a[1], x, g, hints)
        if len(t.a) == 2 and is_const(t.a[0]) and str(cval(t.a[0])).lower() in ("0x", "0b", "0o"):
            return ("lossy", "decimal digits after a radix prefix")
    return None


def plain(p, x, g, hints):
    """str(p)"""
    ty = number_types(x, g, hints)
    if p is x:
        if "str" in ty:
            return ("str",)
        if ty == {"bool"}:
            return ("boolstr",)
        if ty & {"float"} and ty & {"int"}:
            return ("float",)
        if "float" in ty:
            return ("float",)
        if "int" in ty:
            return ("int",)
        return None
    if integer_part(p, x):
        if not ty & {"float"}:
            return ("int",)
        if integral(x, g):
            # quantize fails above the context's precision, which no guard here excludes
            if p.op == "mcall" and p.a[1] == "quantize":
                return ("bad", "quantize fails for numbers of more than 28 digits")
            return ("fint",)
        return ("lossy", "the fraction is dropped")
    if exact_of(p, x):
        return ("float",) if "float" in ty else ("int",)
    if p.op == "call" and p.a[0] == "float" and len(p.a) == 2 and p.a[1] is x:
        return ("float",)
    if p.op == "call" and p.a[0] == "round":
        return ("lossy", "rounded")
    return None


def formatted(t, x, g, hints):
    p, conv, spec = t.a
    if not isinstance(spec, str):
        return None
    if conv in ("r", "s") and not spec:
        return plain(p, x, g, hints)
    m = SPEC.match(spec)
    if m and p is not x and exact_of(p, x) and p.op == "call" and "ecimal" in p.a[0]:
        # a Decimal prints all its digits unless a precision is given
        if m.group("prec") is None and m.group("type") in ("e", "E", "f", "F", "g", "G", None) \
                and not m.group("width") and not m.group("grp"):
            return ("float",)
        return ("lossy", f"format {spec} limits the digits")
    if not m or p is not x:
        return None
    ty = number_types(x, g, hints)
    k = m.group("type")
    if k in ("d", "n", None):
        if m.group("grp"):
            return ("lossy", "digit grouping") if m.group("grp") == "," else None
        if m.group("zero") or m.group("width"):
            return None
        if k is None and m.group("prec") is None:
            return plain(p, x, g, hints)
        if "float" in ty:
            return ("bad", "integer format of a float")
        return ("int",)
    if k in ("x", "X", "o", "b"):
        if m.group("alt"):
            return radix(p, x, g, hints, {"x": 16, "X": 16, "o": 8, "b": 2}[k], True)
        return ("digits", {"x": 16, "X": 16, "o": 8, "b": 2}[k])
    if k in ("e", "E", "g", "G", "f", "F"):
        prec = int(m.group("prec") or 6)
        if k in ("e", "E") and prec >= 16 or k in ("g", "G") and prec >= 17:
            return ("float",)
        return ("lossy", f"format {spec} keeps {prec} digits only")
    return None


def prefixed(pre, f, x, g, hints):
    base = {"0x": 16, "0X": 16, "0b": 2, "0B": 2, "0o": 8}.get(pre)
    c = formatted(f, x, g, hints)
    if base is None or c is None:
        return None
    if c == ("digits", base):
        pos = any(y.op in ("lt", "le") and implies(g, neg(y)) and y.a == (x, C(0)) for y in walk(g)) or any(
            y.op == "le" and implies(g, y) and y.a == (C(0), x) for y in walk(g))
        return radix(f.a[0], x, g, hints, base, pos)
    return ("lossy", f"digits do not match the prefix {pre}")


def radix(p, x, g, hints, base, signed):
    if p is not x:
        return None
    if number_types(x, g, hints) == {"float"}:
        return ("bad", "integer format of a float")
    return ("radix", base, signed)


def decode(dec, cls):
    """outcome of one decoder: same, diff, raises, maybe (same or raises), approx, None unknown"""
    if cls is None:
        return None
    k = cls[0]
    if k == "bad":
        return "diff"
    name = dec[0]
    base = dec[1] if len(dec) > 1 else None
    if k == "const":
        try:
            if name == "int":
                int(cls[1], 10 if base is None else base)
            else:
                float(cls[1])
        except ValueError:
            return "raises"
        return "const"
    if k == "lossy":
        return "approx"
    if k == "boolstr":
        return "raises"
    if k == "str":
        return "same-or-raises"
    if name == "int":
        b = 10 if base is None else base
        if k in ("int", "fint"):
            return "same" if b in (0, 10) else "diff"
        if k == "float":
            return "raises-mostly"
        if k == "radix":
            if b == 0 or b == cls[1]:
                return "same" if cls[2] else "partly"
            return "raises" if b == 10 else "diff"
        if k == "digits":
            return "same" if b == cls[1] else "diff"
    if name in ("float", "decimal.Decimal"):
        if k in ("float", "fint"):
            return "same"
        if k == "int":
            return "approx-int"
        if k in ("radix", "digits"):
            return "raises"
    return None


def feasible_value(out):
    return out not in ("raises",)


def bare(g):
    return g is not FALSE


__all__ = ["classify", "decode", "number_types", "conj"]
