"""
Hash-consed symbolic values and conditions used by the abstract interpreter.

Operators
  c(type,value)        constant
  sym(name)            unit input
  attr(x,name) item(x,key) elem(iter)
  call(name,args...)   opaque library call      mcall(recv,name,args...)
  kw(name,x)           keyword argument inside call/mcall
  phi(cond,a,b)        value merge
  fstr(parts...)       string concatenation     fmt(x,conv,spec)
  join(sep,obj-items)  gi(cond,x) guarded item
  obj(id)              heap reference
  cls(ClassInfo) ext(dotted) func(FuncInfo) bound(selfterm,FuncInfo) mod(name) builtin types are ext('int')
  em(ClassInfo,NAME)   enum member
  tup(items...)
  unit(key,args...)    value produced by a summarised project function
Conditions: c(bool) and(..) or(..) not(x) nn(x) truthy(x) inst(x,T) eq(a,b) lt(a,b) le(a,b) in(a,b) loop(iter) exc(n)
"""
from .bdd import canon

_tab = {}
_count = [0]


class T:
    __slots__ = ("op", "a", "n", "_leaves")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.n < other.n


def mk(op, *a):
    key = (op,) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.n = _count[0]
        _count[0] += 1
        t._leaves = None
        _tab[key] = t
    return t


def C(v):
    if isinstance(v, float) and v != v:
        return mk("c", "float", "nan")
    return mk("c", type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)
ABSENT = mk("absent")


def is_const(t):
    return t.op == "c"


def cval(t):
    return t.a[1]


def sym(name):
    return mk("sym", name)


def attr(b, n):
    return mk("attr", b, n)


# ----------------------------------------------------------------- conditions
BOOL_OPS = {"and", "or", "not", "nn", "truthy", "inst", "eq", "lt", "le", "in", "loop", "exc", "issub", "hasattr"}


def is_cond(t):
    return t.op in BOOL_OPS or (t.op == "c" and t.a[0] == "bool")


_neg = {}


def neg(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.a[0]
    if c.op not in ("and", "or"):
        return mk("not", c)
    r = _neg.get(c)
    if r is None:
        r = _or([neg(x) for x in c.a]) if c.op == "and" else _and([neg(x) for x in c.a])
        _neg[c] = r
    return r


def _and(parts):
    parts = list(dict.fromkeys(parts))
    if not parts:
        return TRUE
    if len(parts) == 1:
        return parts[0]
    return mk("and", *sorted(parts))


def _or(parts):
    parts = list(dict.fromkeys(parts))
    if not parts:
        return FALSE
    if len(parts) == 1:
        return parts[0]
    return mk("or", *sorted(parts))


_canon = {}


def _simplify(t):
    if t.op not in ("and", "or"):
        return t
    r = _canon.get(t)
    if r is None:
        r = canon(t, _and, _or, neg, TRUE, FALSE)
        _canon[t] = r
    return r


def conj(*cs):
    parts = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.op == "and":
            parts.extend(c.a)
        else:
            parts.append(c)
    parts = list(dict.fromkeys(parts))
    if len(parts) > 1:
        seen = set(parts)
        for p in parts:
            if p.op == "not" and p.a[0] in seen:
                return FALSE
    return _simplify(_and(parts))


def disj(*cs):
    parts = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        if c.op == "or":
            parts.extend(c.a)
        else:
            parts.append(c)
    parts = list(dict.fromkeys(parts))
    if len(parts) > 1:
        seen = set(parts)
        for p in parts:
            if p.op == "not" and p.a[0] in seen:
                return TRUE
    return _simplify(_or(parts))


def implies(a, b):
    """a => b under the atom axioms"""
    return conj(a, neg(b)) is FALSE


def phi(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return phi(c.a[0], b, a)
    if a.op == "phi" and a.a[0] is c:
        a = a.a[1]
    if b.op == "phi" and b.a[0] is c:
        b = b.a[2]
    n = 0
    while a.op == "phi" and n < 6:
        n += 1
        if implies(c, a.a[0]):
            a = a.a[1]
        elif conj(c, a.a[0]) is FALSE:
            a = a.a[2]
        else:
            break
    nc = neg(c)
    while b.op == "phi" and n < 12:
        n += 1
        if implies(nc, b.a[0]):
            b = b.a[1]
        elif conj(nc, b.a[0]) is FALSE:
            b = b.a[2]
        else:
            break
    if a is b:
        return a
    if is_cond(a) and is_cond(b):
        return disj(conj(c, a), conj(neg(c), b))
    return mk("phi", c, a, b)


def facts_of(c):
    """flatten condition to fact set"""
    if c is TRUE:
        return frozenset()
    if c.op == "and":
        r = set()
        for x in c.a:
            r |= facts_of(x)
        return frozenset(r)
    if c.op == "not" and c.a[0].op == "or":
        r = set()
        for x in c.a[0].a:
            r |= facts_of(neg(x))
        return frozenset(r)
    return frozenset((c,))


# ----------------------------------------------------------------- utilities
def children(t):
    return [x for x in t.a if isinstance(x, T)]


def walk(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def contains(t, sub):
    return any(x is sub for x in walk(t))


def data_walk(t):
    """walk value parts only: does not enter phi conditions or guards"""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op == "phi":
            stack.extend(x.a[1:])
        elif x.op == "gi":
            stack.append(x.a[1])
        elif x.op in BOOL_OPS:
            continue
        else:
            stack.extend(children(x))


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if not any(isinstance(x, T) for x in t.a):
        return t
    na = tuple(subst(x, m, memo) if isinstance(x, T) else x for x in t.a)
    if na == t.a:
        r = t
    elif t.op == "phi":
        r = phi(*na)
    elif t.op == "and":
        r = conj(*na)
    elif t.op == "or":
        r = disj(*na)
    elif t.op == "not":
        r = neg(na[0])
    else:
        r = mk(t.op, *na)
    memo[t] = r
    return r


def show(t, depth=0):
    if not isinstance(t, T):
        return getattr(t, "name", None) or repr(t)
    o, a = t.op, t.a
    if depth > 14:
        return "…"
    d = depth + 1
    if o == "c":
        return repr(a[1])
    if o == "sym":
        return a[0]
    if o == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if o == "item":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if o == "elem":
        return f"each({show(a[0], d)})"
    if o == "call":
        return f"{a[0]}({', '.join(show(x, d) for x in a[1:])})"
    if o == "mcall":
        return f"{show(a[0], d)}.{a[1]}({', '.join(show(x, d) for x in a[2:])})"
    if o == "kw":
        return f"{a[0]}={show(a[1], d)}"
    if o == "phi":
        return f"({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})"
    if o == "and":
        return "(" + " and ".join(show(x, d) for x in a) + ")"
    if o == "or":
        return "(" + " or ".join(show(x, d) for x in a) + ")"
    if o == "not":
        return f"not {show(a[0], d)}"
    if o == "nn":
        return f"present({show(a[0], d)})"
    if o == "truthy":
        return f"bool({show(a[0], d)})"
    if o == "inst":
        return f"isinstance({show(a[0], d)}, {show(a[1], d)})"
    if o in ("eq", "lt", "le", "in"):
        s = {"eq": "==", "lt": "<", "le": "<=", "in": "in"}[o]
        return f"({show(a[0], d)} {s} {show(a[1], d)})"
    if o == "loop":
        return f"for-each({show(a[0], d)})"
    if o in ("cls", "ext", "mod", "func"):
        return getattr(a[0], "name", None) or str(a[0])
    if o == "em":
        return f"{a[0].name}.{a[1]}"
    if o == "fstr":
        return "f\"" + "".join(cval(x) if is_const(x) and isinstance(cval(x), str) else "{" + show(x, d) + "}" for x in a) + "\""
    if o == "obj":
        return f"obj#{a[0]}"
    return f"{o}({', '.join(show(x, d) for x in a)})"
