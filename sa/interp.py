"""
Syntax directed abstract interpreter for the Python subset used in /repo.

One pass per function body; both arms of an undecided branch are analysed and
their states joined (values become guarded merges), loop bodies are analysed
to a fixpoint of one widening step, project calls are inlined unless the
policy summarises them.  No solver and no concrete execution is involved:
branch conditions are only compared structurally against the facts that hold
on the current path.
"""
import ast
import copy
from .bdd import class_iterable
from .terms import (T, mk, C, NONE, TRUE, FALSE, ABSENT, is_const, cval, sym, attr, is_cond, neg, conj, disj,
                    phi, facts_of, walk)
from .program import ClassInfo, FuncInfo, AnalysisBroken

BUILTIN_TYPES = {"int", "str", "float", "bool", "list", "dict", "tuple", "set", "bytes", "frozenset", "type", "object"}
LISTISH = {"list", "tuple", "iter", "sorted", "reversed", "set", "frozenset"}
MAX_DEPTH = 40


class Unreachable(Exception):
    pass


class HObj:
    __slots__ = ("kind", "cls", "base", "items", "entries", "meta")

    def __init__(self, kind, cls=None, base=None, items=(), entries=None, meta=None):
        self.kind = kind
        self.cls = cls
        self.base = base
        self.items = items
        self.entries = entries if entries is not None else {}
        self.meta = meta or {}

    def with_items(self, items):
        return HObj(self.kind, self.cls, self.base, items, self.entries, self.meta)

    def with_entry(self, k, v):
        e = dict(self.entries)
        e[k] = v
        return HObj(self.kind, self.cls, self.base, self.items, e, self.meta)


class State:
    __slots__ = ("env", "heap", "pc")

    def __init__(self, env=None, heap=None, pc=frozenset()):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.pc = pc

    def copy(self, facts=frozenset()):
        return State(dict(self.env), dict(self.heap), self.pc | facts if facts else self.pc)


class Ev:
    __slots__ = ("kind", "data", "line", "func", "pc")

    def __init__(self, kind, data, line, func, pc):
        self.kind = kind
        self.data = data
        self.line = line
        self.func = func
        self.pc = pc

    def __repr__(self):
        return f"Ev({self.kind}, {self.data})"


class IfEv:
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond = cond
        self.a = a
        self.b = b

    def __repr__(self):
        return f"If({self.cond}, {self.a}, {self.b})"


class LoopEv:
    __slots__ = ("it", "body")

    def __init__(self, it, body):
        self.it = it
        self.body = body

    def __repr__(self):
        return f"Loop({self.it}, {self.body})"


def flat_events(evs, guard=TRUE):
    """yields (guard, Ev) in program order"""
    for e in evs:
        if isinstance(e, IfEv):
            yield from flat_events(e.a, conj(guard, e.cond))
            yield from flat_events(e.b, conj(guard, neg(e.cond)))
        elif isinstance(e, LoopEv):
            yield from flat_events(e.body, conj(guard, mk("loop", e.it)))
        else:
            yield guard, e


class Flow:
    __slots__ = ("fall", "ret", "brk", "cont")

    def __init__(self):
        self.fall = None     # (cond, state)
        self.ret = None      # (cond, state, value)
        self.brk = None
        self.cont = None


def join_val(c, a, b):
    return phi(c, a, b)


def join_states(c, s1, s2, base_pc):
    st = State({}, {}, base_pc | (s1.pc & s2.pc))
    for k in list(s1.env) + [k for k in s2.env if k not in s1.env]:
        a = s1.env.get(k, ABSENT)
        b = s2.env.get(k, ABSENT)
        st.env[k] = a if a is b else phi(c, a, b)
    h1, h2 = s1.heap, s2.heap
    for k in list(h1) + [k for k in h2 if k not in h1]:
        a, b = h1.get(k), h2.get(k)
        if a is b or b is None:
            st.heap[k] = a
        elif a is None:
            st.heap[k] = b
        else:
            st.heap[k] = join_obj(c, a, b)
    return st


def join_obj(c, a, b):
    if a.kind in ("list", "set", "tuplelist"):
        i = 0
        while i < len(a.items) and i < len(b.items) and a.items[i] == b.items[i]:
            i += 1
        nc = neg(c)
        items = list(a.items[:i])
        ra, rb = list(a.items[i:]), list(b.items[i:])
        # merge equal-valued items under differing guards
        used = set()
        for g, v in ra:
            g1 = conj(c, g)
            for j, (g2, v2) in enumerate(rb):
                if j not in used and v2 is v and len(ra) == len(rb):
                    used.add(j)
                    g1 = disj(g1, conj(nc, g2))
                    break
            if g1 is not FALSE:
                items.append((g1, v))
        for j, (g2, v2) in enumerate(rb):
            if j not in used:
                g = conj(nc, g2)
                if g is not FALSE:
                    items.append((g, v2))
        base = a.base if a.base is b.base else phi(c, a.base or NONE, b.base or NONE)
        return HObj(a.kind, a.cls, base, tuple(items), a.entries, a.meta)
    ent = {}
    for k in list(a.entries) + [k for k in b.entries if k not in a.entries]:
        x = a.entries.get(k, ABSENT)
        y = b.entries.get(k, ABSENT)
        # a symbolic object's untouched attribute is its base attribute
        if a.kind == "inst" and a.base is not None:
            if x is ABSENT:
                x = attr(a.base, k)
            if y is ABSENT:
                y = attr(a.base, k)
        ent[k] = x if x is y else phi(c, x, y)
    return HObj(a.kind, a.cls, a.base, a.items, ent, a.meta)


def const_leaves(v):
    if v.op == "phi":
        return const_leaves(v.a[1]) + const_leaves(v.a[2])
    return [v]


class Policy:
    """Hooks; the default inlines everything."""
    max_depth = MAX_DEPTH
    max_recursion = 2          # nested activations of one function before a call is opaque
    indexable = None          # terms for sequences of unknown length, whose first item may be missing
    closed_types = False      # attributes only have their declared types
    none_by_type = False      # may_be_none looks at the declared types as well
    text_needs = False        # an absent value must not become text
    may_be_none = None        # terms for which uses that fail on None are reported as events

    def call(self, ip, f, selfterm, pos, kws, st, node):
        return None

    def new(self, ip, cls, pos, kws, st, node):
        return None

    def mcall(self, ip, recv, name, pos, kws, st, node):
        return None

    def attr(self, ip, base, name, st):
        return None

    def certain_type(self, ip, t, st):
        return None

    def ignore_handlers(self, ip, s):
        """the body of this try statement is known not to raise what is caught"""
        return False

    def attr_type(self, cls, name):
        """types of an attribute that has no annotation"""
        return None

    def attr_type_first(self, cls, name):
        """types of an attribute, in preference to its annotation"""
        return None

    def attr_absent(self, cls, name):
        """no object of exactly this class has the attribute"""
        return False

    def truth(self, ip, t, st):
        return None


class Interp:
    def __init__(self, prog, policy=None):
        self.prog = prog
        self.policy = policy or Policy()
        self.events = []
        self.frames = []          # (func, module, cls)
        self.next_id = 1
        self.sym_types = {}       # term -> set of hint atoms
        self.sym_certain = {}     # term -> set of certain atoms
        self.excn = 0
        self.decodes = []          # text-to-number conversions evaluated so far
        self.exc_try = {}          # try statement instance -> conversions in its body
        self.lams = {}
        self.born = {}            # the loops in which a local object is made
        self.synth = {}
        self.growing = frozenset()    # local collections that the loop being evaluated only adds to
        self.imprecise = []       # notes
        self.loop_init = {}       # values carried round a loop: what they start with
        self.uses_checked = 0
        self.steps = 0
        self.max_steps = 400000

    # ------------------------------------------------------------ utilities
    def note(self, why, node=None):
        ln = getattr(node, "lineno", 0)
        f = self.frames[-1][0].qual if self.frames and self.frames[-1][0] else "?"
        self.imprecise.append((why, f, ln))

    def emit(self, kind, *data, node=None, st=None):
        f = self.frames[-1][0] if self.frames else None
        self.events.append(Ev(kind, data, getattr(node, "lineno", 0), f, st.pc if st is not None else None))

    def alloc(self, st, obj):
        i = self.next_id
        self.next_id += 1
        t = mk("obj", id(self), i)
        st.heap[t] = obj
        loops = frozenset(x for x in st.pc if x.op == "loop")
        if loops:
            self.born[t] = loops
        return t

    def new_list(self, st, items=(), kind="list", base=None):
        return self.alloc(st, HObj(kind, None, base, tuple(items)))

    def new_dict(self, st, entries=None, base=None):
        return self.alloc(st, HObj("dict", None, base, (), entries or {}))

    @property
    def module(self):
        return self.frames[-1][1]

    # ------------------------------------------------------------ types
    def hint_types(self, t, st, depth=0):
        if depth > 12:
            return {"any"}
        r = self.certain_types(t, st)
        if r is not None:
            return r
        if t in self.sym_types:
            return self.sym_types[t]
        if t.op == "attr":
            bt = self.hint_types(t.a[0], st, depth + 1)
            res = set()
            for b in bt:
                if b == "None":
                    continue
                if isinstance(b, ClassInfo):
                    ts = self.policy.attr_type_first(b, t.a[1])
                    if ts:
                        res |= ts
                        continue
                    an = b.attr_annotation(t.a[1])
                    if an is not None:
                        ts = self.prog.ann_types(an[0], an[1])
                        if ts and "any" not in ts and ts != {"None"}:
                            res |= ts
                            continue
                    ts = self.policy.attr_type(b, t.a[1])
                    if ts:
                        res |= ts
                        continue
                    if an is None and len(bt) > 1 and self.policy.attr_absent(b, t.a[1]):
                        continue
                elif b in ("int", "float", "str", "bool", "bytes"):
                    continue
                res.add("any")
            return res or {"any"}
        if t.op == "elem":
            bt = self.hint_types(t.a[0], st, depth + 1)
            res = set()
            for b in bt:
                if isinstance(b, tuple) and b[0] == "list":
                    res |= b[1]
                elif b == "None":
                    continue
                else:
                    res.add("any")
            return res or {"any"}
        if t.op == "phi":
            return self.hint_types(t.a[1], st, depth + 1) | self.hint_types(t.a[2], st, depth + 1)
        if t.op == "call" and t.a[0] in ("iter", "list", "reversed", "sorted") and len(t.a) > 1:
            return self.hint_types(t.a[1], st, depth + 1)
        if t.op == "item":
            bt = self.hint_types(t.a[0], st, depth + 1)
            res = set()
            for b in bt:
                if isinstance(b, tuple):
                    res |= b[1]
                elif b != "None":
                    res.add("any")
            return res or {"any"}
        return {"any"}

    def certain_types(self, t, st):
        if t.op == "c":
            return {"None"} if cval(t) is None else {t.a[0]}
        if t.op == "obj":
            o = st.heap.get(t)
            if o is not None:
                return {o.cls} if o.kind == "inst" and o.cls is not None else \
                    {"list" if o.kind in ("list",) else "tuple" if o.kind == "tuplelist" else o.kind}
        if t.op == "em":
            return {t.a[0]}
        if t.op in ("fstr", "join"):
            return {"str"}
        if t.op == "tup":
            return {"tuple"}
        if t.op == "call" and t.a[0] in ("str", "int", "float", "bool", "repr"):
            return {"str" if t.a[0] == "repr" else t.a[0]}
        if t in self.sym_certain:
            return self.sym_certain[t]
        r = self.policy.certain_type(self, t, st)
        if r is not None:
            return r
        for f in st.pc:
            if f.op == "inst" and f.a[0] is t:
                ty = f.a[1]
                if ty.op == "cls":
                    return {ty.a[0]}
                if ty.op == "ext" and ty.a[0] in BUILTIN_TYPES:
                    return {ty.a[0]}
        if t.op == "phi":
            a = self.certain_types(t.a[1], st)
            b = self.certain_types(t.a[2], st)
            if a is not None and b is not None:
                return a | b
        if is_cond(t):
            return {"bool"}
        return None

    def atom_is(self, atom, ty):
        """is a value of certain type atom an instance of type term ty? True/False/None"""
        if ty.op == "cls":
            c = ty.a[0]
            if isinstance(atom, ClassInfo):
                if atom.is_sub(c):
                    return True
                if c.is_sub(atom):
                    return None
                return None if any(s.is_sub(c) for s in atom.all_subclasses()) else False
            if isinstance(atom, str) and atom != "any":
                return False
            if isinstance(atom, tuple):
                return False
            return None
        if ty.op == "ext":
            n = ty.a[0].split(".")[-1]
            if isinstance(atom, tuple):
                atom = atom[0]
            if isinstance(atom, ClassInfo):
                if n == "object":
                    return True
                if n in BUILTIN_TYPES:
                    return atom.is_sub(n)
                if n == "Iterable":
                    return class_iterable(atom)
                return True if atom.is_sub(n) else None
            if atom == "any":
                return None
            if n == "object":
                return True
            if n in BUILTIN_TYPES or n in ("NoneType",):
                if atom == n or (atom == "bool" and n == "int") or (atom == "None" and n == "NoneType"):
                    return True
                return False
            if n in ("Iterable", "Sequence", "Collection"):
                return atom in ("list", "tuple", "set", "dict", "str", "frozenset")
            return None
        return None

    def make_inst(self, t, ty, st):
        if ty.op == "tup":
            return disj(*[self.make_inst(t, x, st) for x in ty.a])
        if ty.op == "union":
            return disj(*[self.make_inst(t, x, st) for x in ty.a])
        if ty.op == "obj":
            o = st.heap.get(ty)
            if o is not None and o.kind in ("list", "set", "tuplelist"):
                return disj(*[self.make_inst(t, v, st) for g, v in o.items])
        if t.op == "phi":
            c = t.a[0]
            return disj(conj(c, self.make_inst(t.a[1], ty, st)), conj(neg(c), self.make_inst(t.a[2], ty, st)))
        ct = self.certain_types(t, st)
        if ct:
            rs = [(a, self.atom_is(a, ty)) for a in ct]
            if all(r is True for _, r in rs):
                return TRUE
            if all(r is False for _, r in rs):
                return FALSE
            # e.g. {'str','None'} tested against str
            if all(r is not None for _, r in rs):
                if all(r is True for a, r in rs if a != "None") and any(a == "None" and r is False for a, r in rs):
                    return self.make_nn(t, st)
        c = mk("inst", t, ty)
        r = self.reduce(c, st)
        if r is c and t.op == "attr" and self.policy.closed_types:
            # every other declared type of the attribute has been tested for
            out = {n.a[0].a[1] for n in st.pc if n.op == "not" and n.a[0].op == "inst" and n.a[0].a[0] is t}
            if out:
                h = self.hint_types(t, st)
                if h and "any" not in h:
                    rest = [k for k in h if not any(self.atom_is(k, o) is True for o in out)]
                    if "None" in rest and mk("nn", t) in st.pc:
                        rest.remove("None")
                    if rest and all(self.atom_is(k, ty) is True for k in rest):
                        return TRUE
        return r

    def make_nn(self, t, st):
        if t.op == "c":
            return C(cval(t) is not None)
        if t.op == "absent":
            return FALSE
        if t.op == "phi":
            c = t.a[0]
            return disj(conj(c, self.make_nn(t.a[1], st)), conj(neg(c), self.make_nn(t.a[2], st)))
        if t.op in ("obj", "em", "cls", "func", "bound", "tup", "fstr", "join", "ext", "mod", "lam"):
            return TRUE
        if t.op == "call" and t.a[0] in ("str", "int", "float", "bool", "len", "repr", "list", "tuple", "dict", "set"):
            return TRUE
        if is_cond(t):
            return TRUE
        ct = self.certain_types(t, st)
        if ct and "None" not in ct and "any" not in ct:
            return TRUE
        if ct == {"None"}:
            return FALSE
        return self.reduce(mk("nn", t), st)

    def truth(self, t, st):
        if is_cond(t):
            return t
        r = self.policy.truth(self, t, st)
        if r is not None:
            return r
        if t.op == "c":
            return C(bool(cval(t)))
        if t.op == "absent":
            return FALSE
        if t.op == "phi":
            c = t.a[0]
            return disj(conj(c, self.truth(t.a[1], st)), conj(neg(c), self.truth(t.a[2], st)))
        if t.op == "obj":
            o = st.heap.get(t)
            if o is not None:
                if o.kind in ("list", "set", "tuplelist"):
                    r = disj(*[g for g, v in o.items])
                    if o.base is not None:
                        r = disj(r, self.truth(o.base, st))
                    if t in self.growing and r is not TRUE:
                        r = disj(r, self.reduce(mk("truthy", t), st))
                    return r
                if o.kind == "dict":
                    r = disj(*[self.present(v) for v in o.entries.values()])
                    if o.base is not None:
                        r = disj(r, self.truth(o.base, st))
                    return r
                if o.kind == "inst" and o.cls is not None and not o.cls.lookup("__len__") \
                        and not o.cls.lookup("__bool__"):
                    return TRUE
        if t.op == "tup":
            return C(len(t.a) > 0)
        if t.op in ("em", "cls", "func", "bound", "ext", "mod", "lam"):
            return TRUE
        if t.op == "fstr":
            if any(is_const(p) and isinstance(cval(p), str) and cval(p) for p in t.a):
                return TRUE
            if any(p.op == "fmt" and isinstance(p.a[-1], str) and p.a[-1][-1:] in tuple("xXbodeEfFgGn%") for p in t.a):
                return TRUE
        if t.op == "call" and t.a[0] == "bool" and len(t.a) == 2:
            return self.truth(t.a[1], st)
        if t.op == "call" and t.a[0] == "len" and len(t.a) == 2:
            return self.truth(t.a[1], st)
        if t.op == "call" and t.a[0] in LISTISH and len(t.a) == 2:
            return self.truth(t.a[1], st)
        if t.op == "call" and t.a[0] in ("repr", "hex", "oct", "bin"):
            return TRUE
        if t.op == "call" and t.a[0] in ("str", "repr") and len(t.a) == 2 and self.nonempty_str(t.a[1], st):
            return TRUE
        h = self.hint_types(t, st)
        if h and all(x == "None" or (isinstance(x, ClassInfo) and not x.lookup("__len__") and not x.lookup("__bool__"))
                     for x in h) and any(x != "None" for x in h):
            return self.make_nn(t, st)
        return self.reduce(mk("truthy", t), st)

    def nonempty_str(self, x, st):
        """str(x) cannot be the empty string"""
        if x.op == "phi":
            return self.nonempty_str(x.a[1], st) and self.nonempty_str(x.a[2], st)
        b = x
        while b.op == "mcall":
            b = b.a[0]
        if b.op == "call" and b.a[0] in ("decimal.Decimal", "fractions.Fraction"):
            return True
        if any(mk("inst", x, mk("ext", k)) in st.pc for k in ("int", "float", "bool")):
            return True
        ct = self.certain_types(x, st)
        return bool(ct) and ct <= {"int", "float", "bool", "None"}

    def drop_absent(self, v):
        if v.op == "phi":
            if v.a[1] is ABSENT:
                return self.drop_absent(v.a[2])
            if v.a[2] is ABSENT:
                return self.drop_absent(v.a[1])
            return phi(v.a[0], self.drop_absent(v.a[1]), self.drop_absent(v.a[2]))
        return v

    def present(self, v):
        """condition under which a possibly ABSENT value is present"""
        if v is ABSENT:
            return FALSE
        if v.op == "phi":
            return disj(conj(v.a[0], self.present(v.a[1])), conj(neg(v.a[0]), self.present(v.a[2])))
        return TRUE

    def fill(self, v, default):
        if v is ABSENT:
            return default
        if v.op == "phi":
            return phi(v.a[0], self.fill(v.a[1], default), self.fill(v.a[2], default))
        return v

    # decide a condition under path facts
    def decide(self, c, pc, depth=0):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in pc:
            return True
        if neg(c) in pc:
            return False
        if c.op == "not":
            r = self.decide(c.a[0], pc, depth + 1)
            return None if r is None else not r
        if c.op == "and":
            rs = [self.decide(x, pc, depth + 1) for x in c.a]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            return None
        if c.op == "or":
            rs = [self.decide(x, pc, depth + 1) for x in c.a]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if c.op == "nn":
            x = c.a[0]
            for f in pc:
                if f.op in ("truthy", "inst") and f.a[0] is x:
                    return True
                if f.op == "eq" and f.a[0] is x and is_const(f.a[1]) and cval(f.a[1]) is not None:
                    return True
            return None
        if c.op == "truthy":
            x = c.a[0]
            if neg(mk("nn", x)) in pc:
                return False
            for f in pc:
                if f.op == "eq" and f.a[0] is x and is_const(f.a[1]):
                    return bool(cval(f.a[1]))
            return None
        if c.op == "eq":
            x, y = c.a
            for f in pc:
                if f.op == "eq" and f.a[0] is x and f.a[1] is not y:
                    if is_const(f.a[1]) and is_const(y):
                        return cval(f.a[1]) == cval(y)
                    if f.a[1].op == "em" and y.op == "em":
                        return False
            return None
        if c.op == "inst":
            x, ty = c.a
            if neg(mk("nn", x)) in pc and not (ty.op == "ext" and ty.a[0] == "NoneType"):
                return False
            for f in pc:
                if f.op == "inst" and f.a[0] is x:
                    have = f.a[1]
                    atom = have.a[0] if have.op in ("cls", "ext") else None
                    if atom is None:
                        continue
                    if isinstance(atom, str):
                        atom = atom.split(".")[-1]
                        if atom not in BUILTIN_TYPES:
                            continue
                        if ty.op == "cls":
                            return False
                        if atom == "int" and ty.op == "ext" and ty.a[0] == "bool":
                            continue
                    r = self.atom_is(atom, ty)
                    if r is not None:
                        return r
                if f.op == "eq" and f.a[0] is x and is_const(f.a[1]):
                    r = self.atom_is("None" if cval(f.a[1]) is None else f.a[1].a[0], ty)
                    if r is not None:
                        return r
                if f.op == "not" and f.a[0].op == "inst" and f.a[0].a[0] is x:
                    # not isinstance(x, B) and ty is a subclass of B
                    b = f.a[0].a[1]
                    if b.op == "cls" and ty.op == "cls" and ty.a[0].is_sub(b.a[0]):
                        return False
            return None
        return None

    def reduce(self, c, st):
        r = self.decide(c, st.pc)
        if r is True:
            return TRUE
        if r is False:
            return FALSE
        if c.op == "and":
            return conj(*[self.reduce(x, st) for x in c.a])
        if c.op == "or":
            return disj(*[self.reduce(x, st) for x in c.a])
        return c

    def refine(self, t, st):
        """pick the arm of a merged value that the path facts select"""
        n = 0
        while t.op == "phi" and n < 20:
            r = self.decide(t.a[0], st.pc)
            if r is True:
                t = t.a[1]
            elif r is False:
                t = t.a[2]
            else:
                break
            n += 1
        return t

    # ------------------------------------------------------------ blocks
    def exec_block(self, stmts, st):
        out = Flow()
        cond = TRUE
        cur = st
        pushed = []
        alive = True
        for s in stmts:
            self.steps += 1
            if self.steps > self.max_steps:
                raise AnalysisBroken("abstract interpretation budget exceeded")
            try:
                f = self.exec_stmt(s, cur)
            except Unreachable:
                alive = False
                break
            left = False
            for k in ("ret", "brk", "cont"):
                o = getattr(f, k)
                if o is not None:
                    left = True
                    self._add(out, k, conj(cond, o[0]), o[1], o[2], st.pc)
            if f.fall is None:
                alive = False
                break
            c, cur = f.fall
            if c is not TRUE:
                cond = conj(cond, c)
                cur.pc = cur.pc | facts_of(c)
                if left:
                    pushed.append((c, self.events))
                    self.events = []
        while pushed:
            c, outer = pushed.pop()
            inner = self.events
            self.events = outer
            if inner:
                outer.append(IfEv(c, inner, []))
        if alive:
            out.fall = (cond, cur)
        return out

    def _add(self, flow, k, cond, st, val, base_pc):
        o = getattr(flow, k)
        if o is None:
            setattr(flow, k, (cond, st, val))
        else:
            c1, s1, v1 = o
            setattr(flow, k, (disj(c1, cond), join_states(c1, s1, st, base_pc), phi(c1, v1, val)))

    @staticmethod
    def _fall(st, cond=TRUE):
        f = Flow()
        f.fall = (cond, st)
        return f

    def exec_stmt(self, s, st):
        m = getattr(self, "x_" + s.__class__.__name__, None)
        if m is None:
            self.note(f"unsupported statement {s.__class__.__name__}", s)
            return self._fall(st)
        return m(s, st)

    def x_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return self._fall(st)
        self.ev(s.value, st)
        return self._fall(st)

    def x_Pass(self, s, st):
        return self._fall(st)

    def x_Import(self, s, st):
        return self._fall(st)

    x_ImportFrom = x_Import
    x_Global = x_Pass
    x_Nonlocal = x_Pass

    def x_Assert(self, s, st):
        c = self.cond(s.test, st)
        if c is FALSE:
            self.emit("assert", c, node=s, st=st)
            raise Unreachable()
        self.emit("assert", c, node=s, st=st)
        st.pc = st.pc | facts_of(c)
        return self._fall(st)

    def x_Raise(self, s, st):
        e = self.ev(s.exc, st) if s.exc is not None else mk("reraise")
        self.emit("raise", e, node=s, st=st)
        raise Unreachable()

    def x_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        f = Flow()
        f.ret = (TRUE, st, v)
        return f

    def x_Break(self, s, st):
        f = Flow()
        f.brk = (TRUE, st, NONE)
        return f

    def x_Continue(self, s, st):
        f = Flow()
        f.cont = (TRUE, st, NONE)
        return f

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env[t.id] = ABSENT
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                k = self.ev(t.slice, st)
                o = st.heap.get(b)
                if o is not None and o.kind == "dict":
                    st.heap[b] = o.with_entry(k, ABSENT)
                self.emit("delitem", b, k, node=s, st=st)
        return self._fall(st)

    def x_FunctionDef(self, s, st):
        t = self.closure(s, st)
        st.env[s.name] = t
        return self._fall(st)

    def closure(self, node, st):
        f, m, c = self.frames[-1][:3]
        fi = FuncInfo(getattr(node, "name", "<lambda>"), m, None, node)
        t = mk("lam", id(node), len(self.lams))
        self.lams[t] = (fi, st.env, c)
        return t

    def x_ClassDef(self, s, st):
        self.note("nested class", s)
        return self._fall(st)

    def x_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return self._fall(st)

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.ev(s.value, st)
            self.assign(s.target, v, st, s)
        return self._fall(st)

    def x_AugAssign(self, s, st):
        cur = self.ev(ast.copy_location(self._load(s.target), s.target), st)
        v = self.ev(s.value, st)
        o = st.heap.get(cur) if cur.op == "obj" else None
        if o is not None and o.kind == "list" and isinstance(s.op, ast.Add):
            self.m_list(cur, o, "extend", [v], {}, st, s)
            return self._fall(st)
        ov = st.heap.get(v) if v.op == "obj" else None
        if ov is not None and ov.kind == "list" and isinstance(s.op, ast.Add) and o is None and cur.op in ("attr", "elem", "item"):
            # only a list takes a list this way, and it is changed in place
            self.call_method(cur, "extend", [v], {}, st, s)
            return self._fall(st)
        self.assign(s.target, self.binop(s.op, cur, v, st), st, s)
        return self._fall(st)

    @staticmethod
    def _load(t):
        import copy
        t = copy.copy(t)
        t.ctx = ast.Load()
        return t

    def assign(self, target, v, st, node):
        if isinstance(target, ast.Name):
            st.env[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            o = st.heap.get(v) if v.op == "obj" else None
            if o is not None and o.kind == "set" and o.base is None and len(o.items) == len(target.elts) == 1 \
                    and o.items[0][0] is TRUE and not isinstance(target.elts[0], ast.Starred):
                v = mk("tup", o.items[0][1])
            for i, t in enumerate(target.elts):
                if isinstance(t, ast.Starred):
                    self.assign(t.value, mk("rest", v, C(i)), st, node)
                else:
                    self.assign(t, self.item(v, C(i), st), st, node)
        elif isinstance(target, ast.Attribute):
            b = self.ev(target.value, st)
            self.setattr(b, target.attr, v, st, node)
        elif isinstance(target, ast.Subscript):
            b = self.ev(target.value, st)
            k = self.ev(target.slice, st)
            self.setitem(b, k, v, st, node)
        else:
            self.note("assign target", node)

    def setitem(self, b, k, v, st, node):
        o = st.heap.get(b)
        if o is not None and o.kind == "dict":
            st.heap[b] = o.with_entry(k, v)
        elif o is not None and o.kind == "list" and is_const(k) and isinstance(cval(k), int) \
                and o.base is None and all(g is TRUE for g, _ in o.items) and -len(o.items) <= cval(k) < len(o.items):
            it = list(o.items)
            it[cval(k)] = (TRUE, v)
            st.heap[b] = o.with_items(tuple(it))
        self.emit("setitem", b, k, v, node=node, st=st)

    def setattr(self, b, name, v, st, node):
        if b.op == "phi":
            b = self.refine(b, st)
        if b.op == "phi":
            todo, arms = [(b, TRUE)], []
            while todo:
                x, g = todo.pop()
                if x.op == "phi" and len(arms) + len(todo) < 12:
                    todo += [(x.a[2], conj(g, neg(x.a[0]))), (x.a[1], conj(g, x.a[0]))]
                elif x.op != "c" and g is not FALSE:
                    arms.append((x, g))
            if any(a.op == "phi" or any(k.lookup_setter(name) is not None for k in self.classes_of(a, st)) for a, c in arms):
                self.note("store through merged reference", node)
            for arm, c in arms:
                old = self.getattr(arm, name, st, node)
                self._store(arm, name, phi(c, v, old), st)
            self.emit("setattr", b, name, v, node=node, st=st)
            return
        for c in self.classes_of(b, st):
            setter = c.lookup_setter(name)
            if setter is not None:
                self.call_func(setter, b, [v], {}, st, node)
                return
        self._store(b, name, v, st)
        self.emit("setattr", b, name, v, node=node, st=st)

    def _store(self, b, name, v, st):
        o = st.heap.get(b)
        if o is None:
            o = HObj("inst", None, b)
        st.heap[b] = o.with_entry(name, v)

    def x_If(self, s, st):
        c = self.cond(s.test, st)
        return self.branch(c, lambda x: self.exec_block(s.body, x), lambda x: self.exec_block(s.orelse, x), st)

    def branch(self, c, fa, fb, st):
        c = self.reduce(c, st)
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        nc = neg(c)
        base = st.pc
        outer = self.events
        self.events = ea = []
        s1 = st.copy(facts_of(c))
        f1 = fa(s1)
        self.events = eb = []
        s2 = st.copy(facts_of(nc))
        f2 = fb(s2)
        self.events = outer
        if eb and all(getattr(f1, k) is None for k in ("fall", "ret", "brk", "cont")):
            if ea:                        # the same as what follows `if c: raise`
                outer.append(IfEv(c, ea, []))
            outer += eb
        elif ea or eb:
            outer.append(IfEv(c, ea, eb))
        out = Flow()
        for k in ("ret", "brk", "cont"):
            a, b = getattr(f1, k), getattr(f2, k)
            if a is not None and b is not None:
                setattr(out, k, (disj(conj(c, a[0]), conj(nc, b[0])),
                                 join_states(c, a[1], b[1], base), phi(c, a[2], b[2])))
            elif a is not None:
                setattr(out, k, (conj(c, a[0]), a[1], a[2]))
            elif b is not None:
                setattr(out, k, (conj(nc, b[0]), b[1], b[2]))
        a, b = f1.fall, f2.fall
        if a is not None and b is not None:
            out.fall = (disj(conj(c, a[0]), conj(nc, b[0])), join_states(c, a[1], b[1], base))
        elif a is not None:
            out.fall = (conj(c, a[0]), a[1])
        elif b is not None:
            out.fall = (conj(nc, b[0]), b[1])
        return out

    # -------------------------------------------------------- loops
    def unwrap_iter(self, it, st, node):
        n = 0
        while n < 10:
            n += 1
            it = self.refine(it, st)
            if it.op == "call" and it.a[0] in ("iter", "list", "tuple") and len(it.a) == 2:
                it = it.a[1]
                continue
            cl = self.classes_of(it, st)
            if cl and it.op != "elem_none":
                m = cl[0].lookup("__iter__")
                if m is not None and all(c.lookup("__iter__") is m for c in cl) and not m.is_generator:
                    it = self.call_func(m, it, [], {}, st, node)
                    continue
            break
        return it

    def finite_items(self, it, st):
        """list of (guard, value) if the iterable has statically known members"""
        if it.op == "phi":
            a = [] if it.a[1] is NONE else self.finite_items(it.a[1], st)
            b = [] if it.a[2] is NONE else self.finite_items(it.a[2], st)
            if a is None or b is None:
                return None
            c = it.a[0]
            res = [(conj(c, g), v) for g, v in a] + [(conj(neg(c), g), v) for g, v in b]
            return [x for x in res if x[0] is not FALSE]
        if it.op == "tup":
            return [(TRUE, x) for x in it.a]
        if it.op == "c" and isinstance(cval(it), str) and len(cval(it)) <= 8:
            return [(TRUE, C(ch)) for ch in cval(it)]
        o = st.heap.get(it) if it.op == "obj" else None
        if o is not None and o.base is None:
            if o.kind in ("list", "set", "tuplelist") and len(o.items) <= 60:
                return list(o.items)
            if o.kind == "dict" and len(o.entries) <= 400:
                return [(self.present(v), k) for k, v in o.entries.items()]
        if it.op == "dictview":
            o = st.heap.get(it.a[0])
            if o is not None and o.kind == "dict" and o.base is None and len(o.entries) <= 60:
                res = []
                for k, v in o.entries.items():
                    p = self.present(v)
                    v = self.fill(v, NONE) if p is not TRUE else v
                    res.append((p, {"keys": k, "values": v, "items": mk("tup", k, v)}[it.a[1]]))
                return res
        if it.op == "call" and it.a[0] == "range" and all(is_const(x) for x in it.a[1:]):
            vals = list(range(*[cval(x) for x in it.a[1:]]))
            if len(vals) <= 16:
                return [(TRUE, C(v)) for v in vals]
        if it.op == "call" and it.a[0] == "enumerate" and len(it.a) == 2:
            inner = self.finite_items(it.a[1], st)
            if inner is not None and all(g is TRUE for g, _ in inner):
                return [(TRUE, mk("tup", C(i), v)) for i, (g, v) in enumerate(inner)]
        if it.op == "call" and it.a[0] == "reversed" and len(it.a) == 2:
            inner = self.finite_items(it.a[1], st)
            if inner is not None:
                return list(reversed(inner))
        return None

    def elem_of(self, it):
        if it.op == "call" and it.a[0] == "enumerate" and len(it.a) >= 2:
            i = mk("index", it.a[1])
            if len(it.a) > 2:
                start = it.a[2].a[1] if it.a[2].op == "kw" else it.a[2]
                i = i if is_const(start) and cval(start) == 0 else mk("bin", "Add", i, start)
            return mk("tup", i, self.elem_of(it.a[1]))
        if it.op == "call" and it.a[0] == "zip":
            return mk("tup", *[self.elem_of(x) for x in it.a[1:]])
        if it.op == "call" and it.a[0] in ("sorted", "reversed", "set") and len(it.a) >= 2:
            return self.elem_of(it.a[1])
        return mk("elem", it)

    def x_For(self, s, st):
        it = self.ev(s.iter, st)
        self.need(it, "iteration", st, s)
        it = self.unwrap_iter(it, st, s)
        return self.loop(it, s.target, s.body, s.orelse, st, s)

    def loop(self, it, target, body, orelse, st, node):
        run = (lambda x: self.exec_block(body, x)) if isinstance(body, list) else body
        if it.op == "phi" and any(x is NONE or x.op in ("obj", "tup") for x in it.a[1:]):
            def arm(x, src):
                src = self.unwrap_iter(src, x, node)
                if src is NONE:
                    return Flow()
                return self.loop(src, target, body, orelse, x, node)
            return self.branch(it.a[0], lambda x: arm(x, it.a[1]), lambda x: arm(x, it.a[2]), st)
        items = self.finite_items(it, st)
        if items is not None:
            return self.unroll(items, target, run, orelse, st, node)
        base_src = None
        o = st.heap.get(it) if it.op == "obj" else None
        if o is not None and o.base is not None and not o.items:
            base_src = o.base
        src = base_src if base_src is not None else it
        ll = mk("loop", src)
        el = self.elem_of(src)
        # pass 1: find what the body changes
        outer = self.events
        notes = len(self.imprecise)
        self.events = []
        probe = st.copy(frozenset((ll,)))
        if target is not None:
            self.assign(target, el, probe, node)
        tnames = {n.id for n in ast.walk(target) if isinstance(n, ast.Name)} if target is not None else set()
        f = run(probe)
        self.events = outer
        del self.imprecise[notes:]
        ends = [x[1] for x in (f.fall, f.cont and f.cont[:2], f.brk and f.brk[:2]) if x]
        start = st.copy(frozenset((ll,)))
        grown = set()
        for e in ends:
            for k, v in e.env.items():
                if k in tnames:
                    continue
                if k in st.env and st.env[k] is not v:
                    start.env[k] = mk("loopvar", src, k)
                    self.loop_init.setdefault(start.env[k], set()).add(st.env[k])
            for k, ob in e.heap.items():
                old = st.heap.get(k)
                if old is None or old is ob:
                    continue
                if ob.kind in ("list", "set", "tuplelist"):
                    if len(ob.items) < len(old.items) or ob.items[:len(old.items)] != old.items:
                        start.heap[k] = HObj(old.kind, old.cls, mk("loopvar", src, repr(k)))
                    elif len(ob.items) > len(old.items):
                        grown.add(k)
                else:
                    cur = start.heap[k]
                    if old.kind == "dict" and old.base is None and any(
                            isinstance(ek, T) and not is_const(ek) and ek not in old.entries for ek in ob.entries):
                        # earlier iterations may have added any key
                        cur = HObj(cur.kind, cur.cls, mk("loopvar", src, repr(k)), cur.items, cur.entries, cur.meta)
                    for ek, evv in ob.entries.items():
                        if ek in old.entries and old.entries[ek] is not evv and isinstance(ek, str):
                            cur = cur.with_entry(ek, mk("loopvar", src, f"{k.a[-1] if k.op == 'obj' else k}.{ek}"))
                        elif ek in old.entries and old.entries[ek] is not evv:
                            cur = cur.with_entry(ek, mk("loopvar", src, f"{k.n}[{ek.n}]"))
                        elif ek not in old.entries and old.kind == "inst" and old.base is not None:
                            cur = cur.with_entry(ek, mk("loopvar", src, f"{k.n}.{ek}"))
                    start.heap[k] = cur
        # pass 2
        self.events = body_ev = []
        s2 = start.copy()
        if target is not None:
            self.assign(target, el, s2, node)
        growing, self.growing = self.growing, self.growing | grown
        try:
            f = run(s2)
        finally:
            self.growing = growing
        for how, leaf in (("break", f.brk), ("leave", f.ret)):
            if leaf is not None:
                self.emit(how, src, leaf[0], node=node, st=leaf[1])
        self.events = outer
        if body_ev:
            outer.append(LoopEv(src, body_ev))
        out = Flow()
        end = None
        for o2 in (f.fall, f.cont and f.cont[:2], f.brk and f.brk[:2]):
            if o2 is None:
                continue
            end = o2 if end is None else (disj(end[0], o2[0]), join_states(end[0], end[1], o2[1], st.pc))
        if f.ret is not None:
            c, s3, v = f.ret
            out.ret = (conj(ll, c), s3, v)
        if end is None:
            # body always leaves
            fallc = neg(ll)
            out.fall = (fallc, st.copy(frozenset((fallc,))))
        else:
            joined = join_states(ll, end[1], st, st.pc)
            joined.pc = st.pc
            c = TRUE
            if f.ret is not None:
                c = neg(conj(ll, f.ret[0]))
            out.fall = (c, joined)
        if orelse and out.fall is not None:
            f2 = self.exec_block(orelse, out.fall[1])
            for k in ("ret", "brk", "cont"):
                o2 = getattr(f2, k)
                if o2 is not None:
                    self._add(out, k, conj(out.fall[0], o2[0]), o2[1], o2[2], st.pc)
            out.fall = f2.fall and (conj(out.fall[0], f2.fall[0]), f2.fall[1])
        return out

    def unroll(self, items, target, run, orelse, st, node):
        out = Flow()
        cond = TRUE
        cur = st
        brk = None
        pushed = []
        alive = True
        for g, v in items:
            def body(x, v=v):
                if target is not None:
                    self.assign(target, v, x, node)
                return run(x)
            try:
                f = self.branch(g, body, lambda x: self._fall(x), cur)
            except Unreachable:
                alive = False
                break
            left = False
            if f.ret is not None:
                left = True
                self._add(out, "ret", conj(cond, f.ret[0]), f.ret[1], f.ret[2], st.pc)
            if f.brk is not None:
                left = True
                b = (conj(cond, f.brk[0]), f.brk[1])
                brk = b if brk is None else (disj(brk[0], b[0]), join_states(brk[0], brk[1], b[1], st.pc))
            nxt = None
            for o in (f.fall, f.cont and f.cont[:2]):
                if o is None:
                    continue
                nxt = o if nxt is None else (disj(nxt[0], o[0]), join_states(nxt[0], nxt[1], o[1], st.pc))
            if nxt is None:
                alive = False
                break
            c, cur = nxt
            if c is not TRUE:
                cond = conj(cond, c)
                cur.pc = cur.pc | facts_of(c)
                if left:
                    pushed.append((c, self.events))
                    self.events = []
        while pushed:
            c, outer = pushed.pop()
            inner = self.events
            self.events = outer
            if inner:
                outer.append(IfEv(c, inner, []))
        fall = (cond, cur) if alive else None
        if fall is not None and orelse:
            f2 = self.exec_block(orelse, cur)
            if f2.ret is not None:
                self._add(out, "ret", conj(cond, f2.ret[0]), f2.ret[1], f2.ret[2], st.pc)
            fall = f2.fall and (conj(cond, f2.fall[0]), f2.fall[1])
        if brk is not None:
            fall = brk if fall is None else (disj(fall[0], brk[0]), join_states(fall[0], fall[1], brk[1], st.pc))
        out.fall = fall
        return out

    def x_While(self, s, st):
        it = mk("while", id(s))

        def run(x):
            c = self.cond(s.test, x)
            self.emit("while", it, c, node=s, st=x)
            if c is FALSE:
                f = Flow()
                f.brk = (TRUE, x, NONE)
                return f
            x.pc = x.pc | facts_of(c)
            return self.exec_block(s.body, x)
        f = self.loop(it, None, run, s.orelse, st, s)
        if f.fall is not None and isinstance(s.test, ast.Constant) is False:
            try:
                c = self.cond(s.test, f.fall[1])
                if not any(isinstance(n, ast.Break) for n in ast.walk(s)):
                    f.fall[1].pc = f.fall[1].pc | facts_of(neg(c))
            except Unreachable:
                pass
        return f

    # -------------------------------------------------------- try / with
    def table_access(self, s, st):
        """try: x = table[key] except KeyError: ...  as a question for the key"""
        if len(s.body) != 1 or not isinstance(s.body[0], (ast.Assign, ast.Return)) or len(s.handlers) != 1 or s.finalbody \
                or not isinstance(s.handlers[0].type, ast.Name) or s.handlers[0].type.id not in ("KeyError", "LookupError") \
                or s.body[0].value is None or any(isinstance(n, ast.Raise) and n.exc is None for n in ast.walk(s.handlers[0])):
            return None
        subs = [n for n in ast.walk(s.body[0].value) if isinstance(n, ast.Subscript)]
        if len(subs) != 1 or any(isinstance(n, (ast.Call, ast.Await, ast.Yield, ast.Slice)) for n in ast.walk(s.body[0].value)):
            return None
        d = self.ev(subs[0].value, st.copy())
        o = st.heap.get(d) if isinstance(d, T) and d.op == "obj" else None
        known = o is not None and o.kind == "dict" and o.entries and NONE not in o.entries.values()
        if not known and (o.kind != "dict" if o is not None else d.op != "attr" or any(
                (h[0] if isinstance(h, tuple) else h) in ("list", "tuple", "str") for h in self.hint_types(d, st))):
            return None
        if s.handlers[0].name:
            self.excn += 1
            st.env[s.handlers[0].name] = mk("excval", self.excn, 0)
        r = s.__dict__.get("_asked" + "01"[bool(known)])
        if r is None:
            if known:
                name = f"found at {s.lineno}"
                get = ast.Assign([ast.Name(name, ast.Store())], ast.Call(ast.Attribute(subs[0].value, "get", ast.Load()), [subs[0].slice], []))

                class Put(ast.NodeTransformer):
                    def visit_Subscript(self, n):
                        return ast.Name(name, ast.Load())
                body = Put().visit(copy.deepcopy(s.body[0]))
                test = ast.Compare(ast.Name(name, ast.Load()), [ast.IsNot()], [ast.Constant(None)])
                r = [get, ast.If(test, [body] + s.orelse, s.handlers[0].body)]
            else:
                test = ast.Compare(subs[0].slice, [ast.In()], [subs[0].value])
                r = [ast.If(test, s.body + s.orelse, s.handlers[0].body)]
            for n in r:
                ast.copy_location(n, s)
                ast.fix_missing_locations(n)
            setattr(s, "_asked" + "01"[bool(known)], r)
        return r

    def x_Try(self, s, st):
        asked = self.table_access(s, st)
        if asked is not None:
            return self.exec_block(asked, st)
        if s.handlers and self.policy.ignore_handlers(self, s):
            return self.exec_block(s.body + s.orelse + s.finalbody, st)
        self.excn += 1
        excn = self.excn
        exc = mk("exc", excn)
        st0 = st.copy()
        base = st.pc
        outer = self.events
        self.events = body_ev = []
        first = len(self.decodes)
        try:
            f = self.exec_block(s.body + s.orelse, st)
        except Unreachable:
            f = Flow()
        self.exc_try[excn] = self.decodes[first:]
        self.events = outer
        names = []
        for h in s.handlers:
            if h.type is None:
                names.append("BaseException")
            elif isinstance(h.type, ast.Tuple):
                names.extend(ast.unparse(x) for x in h.type.elts)
            else:
                names.append(ast.unparse(h.type))
        self.events.append(Ev("try", (exc, tuple(names), body_ev), s.lineno, self.frames[-1][0], base))
        out = Flow()
        parts = []
        nb = conj(*[neg(mk("exc", excn, i)) for i in range(len(s.handlers))]) if s.handlers else TRUE
        # body outcome
        parts.append((nb, f))
        wrap = []
        for i, h in enumerate(s.handlers):
            hc = mk("exc", exc.a[0], i)
            hs = st0.copy(frozenset((hc,)))
            # state may include partial effects of the body
            if h.name:
                hs.env[h.name] = mk("excval", exc.a[0], i)
            self.events = hev = []
            try:
                hf = self.exec_block(h.body, hs)
            except Unreachable:
                hf = Flow()
            self.events = outer
            wrap.append((hc, hev))
            parts.append((hc, hf))
        if body_ev:
            outer.append(IfEv(nb, body_ev, [])) if s.handlers else outer.extend(body_ev)
        for hc, hev in wrap:
            if hev:
                outer.append(IfEv(hc, hev, []))
        for k in ("ret", "brk", "cont"):
            for c, fl in parts:
                o = getattr(fl, k)
                if o is not None:
                    self._add(out, k, conj(c, o[0]), o[1], o[2], base)
        fall = None
        for c, fl in parts:
            if fl.fall is not None:
                cc = conj(c, fl.fall[0])
                fall = (cc, fl.fall[1]) if fall is None else (
                    disj(fall[0], cc), join_states(fall[0], fall[1], fl.fall[1], base))
        # the handlers are entered only when an exception was raised: a
        # fall-through condition that is a full case split is unconditional
        if fall is not None:
            allc = disj(*[c for c, _ in parts])
            if all(fl.fall is not None and fl.fall[0] is TRUE for _, fl in parts):
                fall = (TRUE, fall[1])
            else:
                del allc
            out.fall = fall
        if s.finalbody:
            if out.fall is not None:
                f3 = self.exec_block(s.finalbody, out.fall[1])
                for k in ("ret", "brk", "cont"):
                    o = getattr(f3, k)
                    if o is not None:
                        self._add(out, k, o[0], o[1], o[2], base)
                out.fall = f3.fall and (conj(out.fall[0], f3.fall[0]), f3.fall[1])
            elif out.ret is not None:
                self.exec_block(s.finalbody, out.ret[1])
        return out

    def x_With(self, s, st):
        for i in s.items:
            v = self.ev(i.context_expr, st)
            self.emit("with_enter", v, node=s, st=st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st, s)
        f = self.exec_block(s.body, st)
        self.emit("with_exit", node=s, st=st)
        return f

    # ------------------------------------------------------------ expressions
    def cond(self, e, st):
        return self.reduce(self.truth(self.ev(e, st), st), st)

    def ev(self, e, st):
        m = getattr(self, "e_" + e.__class__.__name__, None)
        if m is None:
            self.note(f"unsupported expression {e.__class__.__name__}", e)
            return mk("opaque", ast.dump(e)[:80])
        return m(e, st)

    def e_Constant(self, e, st):
        return C(e.value)

    def e_Name(self, e, st):
        n = e.id
        if n in st.env:
            v = self.refine(st.env[n], st)
            if v is ABSENT or v.op == "phi":
                c = self.present(v)
                if c is not TRUE and self.decide(c, st.pc) is not True:
                    self.emit("unbound", n, neg(c), node=e, st=st)
            return v
        cl = self.frames[-1][2] if self.frames else None
        lam_env = self.frames[-1][3] if len(self.frames[-1]) > 3 else None
        if lam_env is not None and n in lam_env:
            return self.refine(lam_env[n], st)
        return self.global_name(n, self.module)

    def global_name(self, n, m):
        b = self.prog.lookup(m, n)
        if b is None:
            return mk("ext", n)
        return self.binding(b, n)

    def binding(self, b, n):
        k = b[0]
        if k == "mod":
            return mk("mod", b[1])
        if k == "ext":
            return mk("ext", b[1])
        if k == "class":
            return mk("cls", b[1])
        if k == "func":
            return mk("func", b[1])
        if k == "classattr":
            return self.class_attr(b[1], b[2])
        if k == "const":
            e, m = b[1], b[2]
            return self.const_expr(e, m, n)
        return mk("opaque", n)

    def const_expr(self, e, m, n):
        if isinstance(e, ast.Constant):
            return C(e.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant) and isinstance(e.op, ast.USub):
            return C(-e.operand.value)
        if isinstance(e, (ast.Tuple, ast.Set, ast.List)) or (
                isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("frozenset", "set", "tuple")
                and len(e.args) == 1 and isinstance(e.args[0], (ast.Tuple, ast.Set, ast.List))):
            src = e.args[0] if isinstance(e, ast.Call) else e
            items = [self.const_expr(x, m, n) for x in src.elts]
            return mk("tup", *items)
        if isinstance(e, (ast.Name, ast.Attribute)):
            b = self.prog.static_expr(e, m)
            if b is not None and b[0] != "const":
                return self.binding(b, n)
            if b is not None:
                return self.const_expr(b[1], b[2], n)
        if isinstance(e, ast.Subscript) and ast.unparse(e.value).split(".")[-1] in ("Union", "Optional"):
            ats = self.prog.ann_types(e, m)
            return mk("union", *[mk("cls", a) if isinstance(a, ClassInfo) else mk("ext", str(a)) for a in
                                 sorted(ats, key=lambda z: getattr(z, "name", str(z)))])
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.const_expr(e.left, m, n), self.const_expr(e.right, m, n)
            if is_const(a) and is_const(b):
                try:
                    return C(cval(a) + cval(b))
                except TypeError:
                    pass
        return mk("gconst", m.name, n)

    def class_attr(self, c, name):
        if c.is_enum and name in c.attrs:
            return mk("em", c, name)
        r = c.lookup_attr(name)
        if r is not None:
            cc, e = r
            if cc.is_enum:
                return mk("em", cc, name)
            return self.const_expr(e, cc.module, f"{cc.name}.{name}")
        f = c.lookup(name)
        if f is not None:
            if f.is_classmethod:
                return mk("bound", mk("cls", c), f)
            return mk("func", f)
        return mk("attr", mk("cls", c), name)

    def need(self, t, what, st, node):
        """the operation fails if the value is None"""
        f = self.policy.may_be_none
        if f is None:
            return
        t = self.refine(t, st)
        if not (f(t, self, st) if self.policy.none_by_type else f(t)):
            return
        self.uses_checked += 1
        c = self.make_nn(t, st)
        if self.decide(c, st.pc) is not True:
            self.emit("needs", t, what, neg(c), node=node, st=st)

    def e_Attribute(self, e, st):
        b = self.ev(e.value, st)
        self.need(b, e.attr, st, e)
        return self.refine(self.getattr(b, e.attr, st, e), st)

    def classes_of(self, t, st):
        """project classes the value is known or declared to be an instance of"""
        if t.op in ("c", "cls", "mod", "ext", "func", "super"):
            return []
        return sorted([x for x in self.hint_types(t, st) if isinstance(x, ClassInfo)], key=lambda c: c.name)

    def getattr(self, b, name, st, node):
        b = self.refine(b, st)
        if b.op == "mod":
            m = self.prog.modules.get(b.a[0])
            if m is not None:
                r = self.prog._deref(m.env.get(name))
                if r is not None:
                    return self.binding(r, name)
                if f"{b.a[0]}.{name}" in self.prog.modules:
                    return mk("mod", f"{b.a[0]}.{name}")
            return mk("ext", f"{b.a[0]}.{name}")
        if b.op == "ext":
            return mk("ext", f"{b.a[0]}.{name}")
        if b.op == "cls":
            if name == "__name__":
                return C(b.a[0].name)
            return self.class_attr(b.a[0], name)
        if b.op == "em":
            if name == "name":
                return C(b.a[1])
            if name == "value":
                d = dict(b.a[0].enum_members())
                if b.a[1] in d and d[b.a[1]] is not None:
                    return C(d[b.a[1]])
        if b.op == "super":
            slf, after = b.a
            cl = self.classes_of(slf, st) if slf.op != "cls" else [slf.a[0]]
            for c in cl:
                if after in c.mro:
                    f = c.lookup(name, after)
                    if f is not None:
                        return mk("bound", slf, f)
            return mk("attr", b, name)
        o = st.heap.get(b)
        if o is not None and o.kind == "inst":
            if name in o.entries:
                return o.entries[name]
        if b.op == "phi":
            ca, cb = b.a[1], b.a[2]
            r1 = NONE if ca is ABSENT or ca is NONE else self.getattr(ca, name, st, node)
            r2 = NONE if cb is ABSENT or cb is NONE else self.getattr(cb, name, st, node)
            if ca is NONE or ca is ABSENT:
                return r2
            if cb is NONE or cb is ABSENT:
                return r1
            return phi(b.a[0], r1, r2)
        r = self.policy.attr(self, b, name, st)
        if r is not None:
            return r
        if name == "__class__":
            cts = self.certain_types(b, st)
            if cts and len(cts) == 1 and isinstance(next(iter(cts)), ClassInfo) and b.op == "obj":
                return mk("cls", next(iter(cts)))
            return mk("attr", b, "__class__")
        cl = self.classes_of(b, st)
        if cl:
            fs = [c.lookup(name) for c in cl]
            f = fs[0]
            if f is not None and all(x is f for x in fs):
                if f.is_property:
                    return self.call_func(f, b, [], {}, st, node)
                if f.is_static:
                    return mk("func", f)
                if f.is_classmethod:
                    return mk("bound", mk("cls", cl[0]), f)
                return mk("bound", b, f)
            if any(x is not None for x in fs) and b.op not in ("obj",):
                if all(x is not None and not x.is_property for x in fs):
                    return mk("vmeth", b, name)
                self.note(f"ambiguous attribute {name}", node)
                return mk("attr", b, name)
            if all(x is None for x in fs):
                r = cl[0].lookup_attr(name)
                if r is not None and (o is None or name not in o.entries) and len(cl) == 1 and not cl[0].is_dataclass \
                        and cl[0].attr_annotation(name) is None:
                    return self.class_attr(cl[0], name)
                if b.op == "obj" and o is not None and o.base is None:
                    self.emit("noattr", b, name, node=node, st=st)
                    return mk("attr", b, name)
        if o is not None and o.kind == "inst" and o.base is not None and o.base is not b:
            return mk("attr", o.base, name)
        if b.op == "obj" and o is not None and o.kind != "inst":
            return mk("hmeth", b, name)
        return mk("attr", b, name)

    def e_Subscript(self, e, st):
        b = self.ev(e.value, st)
        self.need(b, "[]", st, e)
        if self.policy.indexable is not None and isinstance(e.slice, (ast.Constant, ast.UnaryOp)):
            x = self.refine(b, st)
            o = st.heap.get(x) if x.op == "obj" else None
            if self.policy.indexable(x) or o is not None and o.kind in ("list", "tuplelist"):
                self.uses_checked += 1
                c = self.truth(x, st)
                if self.decide(c, st.pc) is not True:
                    self.emit("needs", x, "[" + ast.unparse(e.slice) + "]", neg(c), node=e, st=st)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, st) if e.slice.lower else NONE
            hi = self.ev(e.slice.upper, st) if e.slice.upper else NONE
            stp = self.ev(e.slice.step, st) if e.slice.step else NONE
            if is_const(b) and isinstance(cval(b), str) and all(is_const(x) for x in (lo, hi, stp)):
                return C(cval(b)[slice(cval(lo), cval(hi), cval(stp))])
            o = st.heap.get(b) if b.op == "obj" else None
            if o is not None and o.kind == "list" and o.base is None and all(is_const(x) for x in (lo, hi, stp)) and \
                    all(isinstance(i, tuple) and i[0] is TRUE for i in o.items or ()):
                return self.new_list(st, list(o.items or ())[slice(cval(lo), cval(hi), cval(stp))])
            if b.op == "tup" and all(is_const(x) for x in (lo, hi, stp)):
                return mk("tup", *b.a[slice(cval(lo), cval(hi), cval(stp))])
            while b.op == "call" and b.a[0] in ("list", "tuple") and len(b.a) == 2 and isinstance(b.a[1], T):
                b = b.a[1]
            if o is not None and o.kind == "list" and o.base is not None and not o.items:
                b = o.base
            elif o is not None and o.kind == "list" and o.base is None and len(o.items or ()) == 1:
                g, x = o.items[0]
                if isinstance(x, T) and x.op == "elem" and g is mk("loop", x.a[0]):
                    b = x.a[0]
            return mk("slice", b, lo, hi, stp)
        k = self.ev(e.slice, st)
        return self.refine(self.item(b, k, st, e), st)

    def const_table(self, o):
        """entries of a small dictionary of constants"""
        if o is None or o.kind != "dict" or o.base is not None or not 0 < len(o.entries) <= 16:
            return None
        for k, v in o.entries.items():
            if not (is_const(k) or k.op == "em") or not (is_const(v) or v.op in ("em", "cls", "tup")
                                                         or getattr(self.policy, "tables", False) and v.op in ("bound", "func", "lam")):
                return None
        return list(o.entries.items())

    def table_item(self, tab, k, default, st):
        """the entry a key selects; the last entry when the key is known to be there"""
        r = default if default is not None else tab[-1][1]
        for key, v in reversed(tab if default is not None else tab[:-1]):
            r = phi(self.make_eq(k, key, st), v, r)
        return r

    def item(self, b, k, st, node=None):
        if b.op == "phi":
            b = self.refine(b, st)
        if b.op == "phi":
            if b.a[1] in (NONE, ABSENT):
                return self.item(b.a[2], k, st, node)
            if b.a[2] in (NONE, ABSENT):
                return self.item(b.a[1], k, st, node)
            return phi(b.a[0], self.item(b.a[1], k, st, node), self.item(b.a[2], k, st, node))
        if b.op == "tup" and is_const(k) and isinstance(cval(k), int) and -len(b.a) <= cval(k) < len(b.a):
            return b.a[cval(k)]
        o = st.heap.get(b)
        if o is not None:
            if o.kind == "dict" and k in o.entries:
                v = o.entries[k]
                p = self.present(v)
                if p is not TRUE and node is not None:
                    self.emit("keymiss", b, k, neg(p), node=node, st=st)
                return self.fill(v, NONE) if p is not TRUE else v
            if o.kind == "dict" and o.base is None and is_const(k) and all(is_const(x) for x in o.entries):
                self.emit("keymiss", b, k, TRUE, node=node, st=st)
            tab = self.const_table(o) if not is_const(k) else None
            if tab is not None:
                known = disj(*[self.make_eq(k, x, st) for x, _ in tab])
                if node is not None and self.decide(known, st.pc) is not True:
                    self.emit("keymiss", b, k, neg(known), node=node, st=st)
                return self.table_item(tab, k, None, st)
            if o.kind in ("list", "tuplelist") and o.base is None and is_const(k) and isinstance(cval(k), int) \
                    and all(g is TRUE for g, _ in o.items) and -len(o.items) <= cval(k) < len(o.items):
                return o.items[cval(k)][1]
            if o.kind in ("list", "tuplelist") and o.base is None and is_const(k) and cval(k) in (0, -1) and o.items:
                r = NONE
                for g, v in (reversed(o.items) if cval(k) == 0 else o.items):
                    r = v if r is NONE else phi(g, v, r)
                return r
            if o.kind in ("list", "tuplelist") and o.base is None and is_const(k) and isinstance(cval(k), int) \
                    and 0 < cval(k) < len(o.items) <= 6 \
                    and not any(y.op == "loop" for g, _ in o.items for y in walk(g)):
                def kth(i, n):
                    if i == len(o.items):
                        return mk("noitem")
                    g, v = o.items[i]
                    return phi(g, v if n == 0 else kth(i + 1, n - 1), kth(i + 1, n))
                r = kth(0, cval(k))
                while r.op == "phi" and r.a[2].op == "noitem":
                    r = r.a[1]
                return r
        r = self.policy.attr(self, b, ("item", k), st)
        if r is not None:
            return r
        if b.op == "cls" and b.a[0].is_enum and is_const(k) and k.a[0] == "str" and cval(k) in b.a[0].attrs:
            return mk("em", b.a[0], cval(k))
        return mk("item", b, k)

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.e_List(e, st)
        return mk("tup", *[self.ev(x, st) for x in e.elts])

    def e_List(self, e, st):
        items = []
        base = None
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                fi = self.finite_items(self.unwrap_iter(v, st, e), st)
                if fi is not None:
                    items.extend(fi)
                else:
                    items.append((mk("loop", v), self.elem_of(v)))
            else:
                items.append((TRUE, self.ev(x, st)))
        return self.new_list(st, items, base=base)

    def e_Set(self, e, st):
        return self.new_list(st, [(TRUE, self.ev(x, st)) for x in e.elts], kind="set")

    def e_Dict(self, e, st):
        d = self.new_dict(st)
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, st)
                self.dict_update(d, src, st, e)
            else:
                kk = self.ev(k, st)
                vv = self.ev(v, st)
                st.heap[d] = st.heap[d].with_entry(kk, vv)
        return d

    def dict_update(self, d, src, st, node):
        o = st.heap.get(src)
        od = st.heap[d]
        if o is not None and o.kind == "dict":
            ent = dict(od.entries)
            for k, v in o.entries.items():
                p = self.present(v)
                if p is TRUE:
                    ent[k] = v
                elif p is not FALSE:
                    ent[k] = self.fill(v, ent.get(k, ABSENT))
            base = od.base
            if o.base is not None:
                base = o.base if base is None else mk("merged", base, o.base)
            st.heap[d] = HObj("dict", None, base, (), ent, od.meta)
        else:
            st.heap[d] = HObj("dict", None, src if od.base is None else mk("merged", od.base, src), (), od.entries,
                              od.meta)

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                x = self.ev(v.value, st)
                if self.policy.text_needs:
                    self.need(x, "text", st, v)
                conv = chr(v.conversion) if v.conversion not in (-1, None) else ""
                spec = ""
                if v.format_spec is not None:
                    sp = self.ev(v.format_spec, st)
                    spec = cval(sp) if is_const(sp) else sp
                if conv or spec:
                    parts.append(mk("fmt", x, conv, spec))
                else:
                    parts.append(x)
        if len(e.values) == 1 and isinstance(e.values[0], ast.FormattedValue) and not is_const(parts[0]) \
                and parts[0].op not in ("fmt", "fstr", "join", "phi"):
            return mk("call", "str", parts[0])
        return self.concat(parts)

    def concat(self, parts):
        flat = []
        for p in parts:
            for q in (p.a if p.op == "fstr" else (p,)):
                if is_const(q) and not isinstance(cval(q), str):
                    q = C(str(cval(q)))
                if flat and is_const(flat[-1]) and is_const(q):
                    flat[-1] = C(cval(flat[-1]) + cval(q))
                elif is_const(q) and cval(q) == "":
                    continue
                else:
                    flat.append(q)
        if not flat:
            return C("")
        if len(flat) == 1 and is_const(flat[0]):
            return flat[0]
        return mk("fstr", *flat)

    def e_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        if not isinstance(e.op, (ast.BitOr, ast.BitAnd)):
            self.need(a, "arithmetic", st, e)
            self.need(b, "arithmetic", st, e)
        return self.binop(e.op, a, b, st)

    def binop(self, op, a, b, st):
        n = op.__class__.__name__
        if is_const(a) and is_const(b):
            try:
                x, y = cval(a), cval(b)
                if n == "Add":
                    return C(x + y)
                if n == "Sub":
                    return C(x - y)
                if n == "Mult" and not (isinstance(x, str) or isinstance(y, str)):
                    return C(x * y)
                if n == "Mod" and isinstance(x, int) and isinstance(y, int) and y:
                    return C(x % y)
                if n == "FloorDiv" and y:
                    return C(x // y)
            except TypeError:
                pass
        if n == "Add":
            strish = any(x.op in ("fstr", "join") or (is_const(x) and isinstance(cval(x), str))
                         or (x.op == "call" and x.a[0] == "str") for x in (a, b))
            if strish:
                return self.concat([a, b])
            oa = st.heap.get(a)
            ob = st.heap.get(b)
            if oa is not None and ob is not None and oa.kind == ob.kind == "list" and ob.base is None:
                return self.new_list(st, oa.items + ob.items, base=oa.base)
            # numeric widening: x + c + c ... collapses to a single opaque step
            if is_const(b) and a.op == "bin" and a.a[0] == "Add" and is_const(a.a[2]):
                try:
                    k = cval(a.a[2]) + cval(b)
                    return a.a[1] if k == 0 and a.a[1].op == "index" else mk("bin", "Add", a.a[1], C(k))
                except TypeError:
                    pass
        if n == "Sub" and is_const(b) and isinstance(cval(b), int):
            return self.binop(ast.Add(), a, C(-cval(b)), st)
        if n == "BitOr" and a.op in ("cls", "ext", "union") and (b.op in ("cls", "ext", "union")):
            ps = []
            for x in (a, b):
                ps.extend(x.a if x.op == "union" else (x,))
            return mk("union", *ps)
        if self.depth_of(a) > 25 or self.depth_of(b) > 25:
            return mk("deep", n)
        return mk("bin", n, a, b)

    _depth = {}

    def depth_of(self, t):
        d = self._depth.get(t)
        if d is None:
            d = 0
            for x in t.a:
                if isinstance(x, T):
                    d = max(d, self.depth_of(x) + 1)
            self._depth[t] = d
        return d

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            return neg(self.truth(v, st))
        if is_const(v) and isinstance(cval(v), (int, float)):
            if isinstance(e.op, ast.USub):
                return C(-cval(v))
            if isinstance(e.op, ast.UAdd):
                return v
        return mk("un", e.op.__class__.__name__, v)

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        vals = []
        sub = st.copy()
        acc = None
        for x in e.values:
            v = self.ev(x, sub)
            # propagate heap effects
            st.heap = sub.heap
            vals.append(v)
            t = self.truth(v, sub)
            acc = t
            if t is (FALSE if isand else TRUE):
                break
            sub = State(sub.env, sub.heap, sub.pc | facts_of(t if isand else neg(t)))
            for k in sub.env:
                if k not in st.env or st.env[k] is not sub.env[k]:
                    st.env[k] = sub.env[k]
        del acc
        if all(is_cond(v) for v in vals):
            return conj(*vals) if isand else disj(*vals)
        # value semantics
        r = vals[-1]
        for v in reversed(vals[:-1]):
            t = self.truth(v, st)
            r = phi(t, r, v) if isand else phi(t, v, r)
        return r

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                self.need(left, "order", st, e)
                self.need(right, "order", st, e)
            elif isinstance(op, (ast.In, ast.NotIn)):
                self.need(right, "in", st, e)
            res.append(self.compare(op, left, right, st))
            left = right
        return conj(*res)

    def compare(self, op, a, b, st):
        n = op.__class__.__name__
        if n in ("IsNot", "NotEq", "NotIn"):
            pos = {"IsNot": ast.Is, "NotEq": ast.Eq, "NotIn": ast.In}[n]()
            return neg(self.compare(pos, a, b, st))
        if n == "Is" or n == "Eq":
            if b is NONE:
                return neg(self.make_nn(a, st))
            if a is NONE:
                return neg(self.make_nn(b, st))
            return self.make_eq(a, b, st, n == "Is")
        if n == "In":
            return self.make_in(a, b, st)
        # ordering
        if n == "Gt":
            return self.order(b, a, True, st)
        if n == "GtE":
            return self.order(b, a, False, st)
        if n == "Lt":
            return self.order(a, b, True, st)
        if n == "LtE":
            return self.order(a, b, False, st)
        return mk("truthy", mk("cmp", n, a, b))

    def order(self, a, b, strict, st):
        """a < b (strict) or a <= b"""
        if is_const(a) and is_const(b):
            try:
                return C(cval(a) < cval(b) if strict else cval(a) <= cval(b))
            except TypeError:
                pass
        # 0 < len(x), 1 <= len(x)
        if b.op == "call" and b.a[0] == "len" and is_const(a) and len(b.a) == 2:
            if (strict and cval(a) == 0) or (not strict and cval(a) == 1):
                return self.truth(b.a[1], st)
            if not strict and cval(a) == 0:
                return TRUE
        if a.op == "call" and a.a[0] == "len" and is_const(b) and len(a.a) == 2:
            if (strict and cval(b) == 1) or (not strict and cval(b) == 0):
                return neg(self.truth(a.a[1], st))
        for x, y, left in ((a, b, True), (b, a, False)):
            if x.op == "phi" and is_const(y) and all(is_const(l) for l in const_leaves(x)):
                p = self.order(x.a[1], y, strict, st) if left else self.order(y, x.a[1], strict, st)
                q = self.order(x.a[2], y, strict, st) if left else self.order(y, x.a[2], strict, st)
                return phi(x.a[0], p, q)
        # int arithmetic normal form for constants: a <= n  <=>  not (n < a)
        if strict:
            return self.reduce(mk("lt", a, b), st)
        return neg(self.reduce(mk("lt", b, a), st))

    def make_eq(self, a, b, st, ident=False):
        if a is b:
            return TRUE
        if is_const(a) and is_const(b):
            return C(type(cval(a)) is type(cval(b)) and cval(a) == cval(b) or
                     (not ident and cval(a) == cval(b)))
        if (is_const(a) or a.op == "em") and not (is_const(b) or b.op == "em"):
            a, b = b, a
        if a.op == "em" and b.op == "em":
            return C(a.a[0] is b.a[0] and a.a[1] == b.a[1])
        if (a.op == "em" and is_const(b)) or (b.op == "em" and is_const(a)) or (a.op == "cls" and b.op in ("cls", "ext")):
            return FALSE if a is not b else TRUE
        if a.op == "phi":
            c = a.a[0]
            return disj(conj(c, self.make_eq(a.a[1], b, st)), conj(neg(c), self.make_eq(a.a[2], b, st)))
        if is_const(b) and isinstance(cval(b), bool):
            t = self.certain_types(a, st)
            if t == {"bool"} or ident:
                x = mk("eq", a, TRUE)
                return self.reduce(x if cval(b) else mk("eq", a, FALSE), st)
        if is_const(b) and isinstance(cval(b), int) and not isinstance(cval(b), bool) and cval(b) == 0 \
                and a.op == "call" and a.a[0] == "len":
            return neg(self.truth(a.a[1], st))
        ct = self.certain_types(a, st)
        if ct and is_const(b) and "any" not in ct:
            bn = "None" if cval(b) is None else b.a[0]
            num = {"int", "float", "bool"}
            if not any(x == bn or (x in num and bn in num) or isinstance(x, (ClassInfo, tuple)) for x in ct):
                return FALSE
        if not is_const(b) and b.op != "em" and b.n < a.n:
            a, b = b, a
        return self.reduce(mk("eq", a, b), st)

    def make_in(self, a, b, st):
        fi = None
        if b.op == "tup":
            fi = [(TRUE, x) for x in b.a]
        o = st.heap.get(b) if b.op == "obj" else None
        if o is not None and o.base is None:
            if o.kind in ("list", "set", "tuplelist"):
                fi = list(o.items)
            elif o.kind == "dict":
                fi = [(self.present(v), k) for k, v in o.entries.items()]
        if fi is not None and len(fi) <= 80:
            r = disj(*[conj(g, self.make_eq(a, v, st)) for g, v in fi])
            if b in self.growing and r is not TRUE:
                r = disj(r, self.reduce(mk("in", a, b), st))     # added by an earlier iteration
            return r
        r = self.policy.attr(self, b, ("in", a), st)
        if r is not None:
            return r
        if is_const(a) and is_const(b) and isinstance(cval(a), str) and isinstance(cval(b), str):
            return C(cval(a) in cval(b))
        if b.op == "dictview" and b.a[1] == "keys":
            return self.make_in(a, b.a[0], st)
        return self.reduce(mk("in", a, b), st)

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        if c is TRUE:
            return self.ev(e.body, st)
        if c is FALSE:
            return self.ev(e.orelse, st)
        vals = []

        def run(x, ex):
            f = Flow()
            f.ret = (TRUE, x, self.ev(ex, x))
            return f
        fl = self.branch(c, lambda x: self._guard(run, x, e.body), lambda x: self._guard(run, x, e.orelse), st)
        del vals
        if fl.ret is None:
            raise Unreachable()
        cnd, s2, v = fl.ret
        st.heap = s2.heap
        st.env = s2.env
        return v

    @staticmethod
    def _guard(run, x, ex):
        try:
            return run(x, ex)
        except Unreachable:
            return Flow()

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        st.env[e.target.id] = v
        return v

    def e_Lambda(self, e, st):
        return self.closure(e, st)

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value else NONE
        self.emit("yield", v, node=e, st=st)
        return NONE

    def e_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        self.emit("yieldfrom", v, node=e, st=st)
        return NONE

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    # comprehension
    def comp(self, e, st, add):
        saved = dict(st.env)

        def gen(i, s):
            if i == len(e.generators):
                add(s)
                return self._fall(s)
            g = e.generators[i]
            it = self.ev(g.iter, s)
            self.need(it, "iteration", s, e)
            it = self.unwrap_iter(it, s, e)

            def body(x):
                c = TRUE
                for cnd in g.ifs:
                    c = conj(c, self.cond(cnd, x))
                    x.pc = x.pc | facts_of(c)
                if c is FALSE:
                    return self._fall(x)
                x.pc = frozenset(p for p in x.pc)
                return self.branch(c, lambda y: gen(i + 1, y), lambda y: self._fall(y),
                                   State(x.env, x.heap, x.pc - facts_of(c)))
            return self.loop(it, g.target, body, [], s, e)
        f = gen(0, st)
        s2 = f.fall[1] if f.fall is not None else st
        st.heap = s2.heap
        st.env = saved

    def e_ListComp(self, e, st, kind="list"):
        lst = self.new_list(st, kind=kind)

        def add(s):
            v = self.ev(e.elt, s)
            o = s.heap[lst]
            s.heap[lst] = o.with_items(o.items + ((TRUE, v),))
        self.comp(e, st, add)
        return lst

    def e_GeneratorExp(self, e, st):
        return self.e_ListComp(e, st)

    def e_SetComp(self, e, st):
        return self.e_ListComp(e, st, "set")

    def e_DictComp(self, e, st):
        d = self.new_dict(st)

        def add(s):
            k = self.ev(e.key, s)
            v = self.ev(e.value, s)
            s.heap[d] = s.heap[d].with_entry(k, v)
            self.emit("setitem", d, k, v, node=e, st=s)
        self.comp(e, st, add)
        return d

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.env:
            cl = self.frames[-1][2]
            if not e.args and cl is not None:
                f = self.frames[-1][0]
                slf = st.env.get(f.pos[0]) if f.pos else None
                if slf is not None:
                    return mk("super", slf, cl)
            elif len(e.args) == 2:
                c = self.ev(e.args[0], st)
                slf = self.ev(e.args[1], st)
                if c.op == "cls":
                    return mk("super", slf, c.a[0])
            return mk("opaque", "super")
        fn = self.ev(e.func, st)
        pos, kws, star, dstar = [], {}, None, []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                v = self.refine(v, st)
                if v.op == "tup":
                    pos.extend(v.a)
                    continue
                o = st.heap.get(v)
                if o is not None and o.kind in ("list", "tuplelist") and o.base is None \
                        and all(g is TRUE for g, _ in o.items):
                    pos.extend(x for _, x in o.items)
                    continue
                star = v
            else:
                pos.append(self.ev(a, st))
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                dstar.append(v)
            else:
                kws[k.arg] = v
        for d in dstar:
            o = st.heap.get(d)
            if o is not None and o.kind == "dict":
                for kk, vv in o.entries.items():
                    if is_const(kk) and isinstance(cval(kk), str):
                        p = self.present(vv)
                        if p is not FALSE:
                            kws[cval(kk)] = vv
                    else:
                        self.note("non-constant keyword", e)
                if o.base is not None:
                    kws["**"] = o.base
            else:
                kws["**"] = d
        if star is not None:
            kws["*"] = star
        return self.refine(self.call_value(fn, pos, kws, st, e), st)

    def call_value(self, fn, pos, kws, st, node):
        fn = self.refine(fn, st)
        op = fn.op
        if op == "phi":
            arms = [(fn.a[0], fn.a[1]), (neg(fn.a[0]), fn.a[2])]
            arms = [(c, a) for c, a in arms if a not in (NONE, ABSENT)]
            if len(arms) == 1:
                return self.call_value(arms[0][1], pos, kws, st, node)

            def run(a):
                def go(x):
                    f = Flow()
                    try:
                        f.ret = (TRUE, x, self.call_value(a, pos, kws, x, node))
                    except Unreachable:
                        pass
                    return f
                return go
            fl = self.branch(fn.a[0], run(arms[0][1]), run(arms[1][1]), st)
            if fl.ret is None:
                raise Unreachable()
            st.heap = fl.ret[1].heap
            return fl.ret[2]
        if op == "func":
            return self.call_func(fn.a[0], None, pos, kws, st, node)
        if op == "bound":
            return self.call_func(fn.a[1], fn.a[0], pos, kws, st, node)
        if op == "lam":
            fi, env, cl = self.lams[fn]
            return self.inline(fi, None, pos, kws, st, node, lam_env=env, cls=cl)
        if op == "cls":
            return self.instantiate(fn.a[0], pos, kws, st, node)
        if op == "hmeth":
            return self.heap_method(fn.a[0], fn.a[1], pos, kws, st, node)
        if op == "ext":
            return self.call_ext(fn.a[0], pos, kws, st, node)
        if op == "attr":
            return self.call_method(fn.a[0], fn.a[1], pos, kws, st, node)
        if op == "vmeth":
            return self.call_method(fn.a[0], fn.a[1], pos, kws, st, node)
        r = self.policy.mcall(self, fn, "__call__", pos, kws, st, node)
        if r is not None:
            return r
        self.emit("dyncall", fn, tuple(pos), tuple(sorted(kws.items())), node=node, st=st)
        return mk("dyn", fn, *pos, *[mk("kw", k, v) for k, v in sorted(kws.items())])

    def bind(self, f, selfterm, pos, kws, st, node):
        """bind arguments to parameters; returns env"""
        env = {}
        params = list(f.pos)
        pos = list(pos)
        if selfterm is not None and not f.is_static:
            pos = [selfterm] + pos
        extra = []
        for i, v in enumerate(pos):
            if i < len(params):
                env[params[i]] = v
            else:
                extra.append(v)
        if f.vararg:
            env[f.vararg] = mk("tup", *extra) if "*" not in kws else mk("opaque", "varargs")
        elif extra:
            self.emit("badpos", f, len(extra), node=node, st=st)
        open_kw = kws.get("**")
        rest = {}
        for k, v in kws.items():
            if k in ("**", "*"):
                continue
            if k in env and k in params:
                self.emit("dupkw", f, k, node=node, st=st)
            if k in params or k in f.kwonly:
                env[k] = v
            elif f.kwarg:
                rest[C(k)] = v
            else:
                self.emit("badkw", f, k, self.present(v), node=node, st=st)
        for p in params + f.kwonly:
            d = f.defaults.get(p)
            dv = None
            if p in env:
                pr = self.present(env[p])
                if pr is not TRUE:
                    if d is not None:
                        dv = self.default_value(f, d, st)
                        env[p] = self.fill(env[p], dv)
                    else:
                        self.emit("missing", f, p, neg(pr), node=node, st=st)
                        if pr is FALSE:
                            env[p] = mk("missing", p)
                        else:
                            # the call only goes ahead with the argument
                            st.pc = st.pc | facts_of(pr)
                            env[p] = self.drop_absent(env[p])
                continue
            if d is not None:
                dv = self.default_value(f, d, st)
            if "*" in kws and p in params:
                env[p] = mk("stararg", kws["*"], p)
            elif open_kw is not None:
                env[p] = mk("kwget", open_kw, p)
            elif dv is not None:
                env[p] = dv
            else:
                self.emit("missing", f, p, TRUE, node=node, st=st)
                env[p] = mk("missing", p)
        if f.kwarg:
            env[f.kwarg] = self.new_dict(st, rest, base=open_kw)
        return env

    def default_value(self, f, d, st):
        self.frames.append((f, f.module, f.cls))
        saved = st.env
        st.env = {}
        try:
            return self.ev(d, st)
        finally:
            st.env = saved
            self.frames.pop()

    @staticmethod
    def leading(f, bound, pos, kws):
        """one form for a call: the leading parameters by position, also those given by name"""
        if not kws or any(k.startswith("*") for k in kws if isinstance(k, str)):
            return pos, kws
        names = list(f.pos)[1 if bound and not f.is_static else 0:]
        pos, kws = list(pos), dict(kws)
        while len(pos) < len(names) and names[len(pos)] in kws:
            pos.append(kws.pop(names[len(pos)]))
        return pos, kws

    def call_func(self, f, selfterm, pos, kws, st, node):
        if f.is_classmethod and selfterm is not None and selfterm.op != "cls":
            cl = self.classes_of(selfterm, st)
            if cl:
                selfterm = mk("cls", cl[0])
        if f.is_abstract and selfterm is not None and selfterm.op == "cls" and selfterm.a[0].lookup(f.name) is not f:
            f = selfterm.a[0].lookup(f.name)
        pos, kws = self.leading(f, selfterm is not None, pos, kws)
        r = self.policy.call(self, f, selfterm, pos, kws, st, node)
        if r is not None:
            return r
        if f.is_abstract and selfterm is not None and selfterm.op != "obj":
            # decided by a subclass the program does not have to contain
            self.emit("mcall", selfterm, f.name, tuple(pos), tuple(sorted(kws.items(), key=lambda kv: str(kv[0]))),
                      node=node, st=st)
            return mk("mcall", selfterm, f.name, *pos,
                      *[mk("kw", str(k), v) for k, v in sorted(kws.items(), key=lambda kv: str(kv[0]))])
        if f.is_generator:
            return mk("call", f.qual, *( [selfterm] if selfterm is not None else []), *pos)
        depth = sum(1 for fr in self.frames if fr[0] is f)
        if depth >= self.policy.max_recursion or len(self.frames) > self.policy.max_depth:
            self.emit("recursion", f, node=node, st=st)
            args = ([selfterm] if selfterm is not None else []) + list(pos)
            return mk("call", f.qual, *args)
        return self.inline(f, selfterm, pos, kws, st, node)

    def inline(self, f, selfterm, pos, kws, st, node, lam_env=None, cls=None):
        env = self.bind(f, selfterm, pos, kws, st, node)
        for p in f.pos_nodes:
            an = f.annotation(p)
            v = env.get(p)
            if an is not None and v is not None and v.op in ("sym", "attr", "elem", "unit") \
                    and v not in self.sym_types:
                ts = self.prog.ann_types(an, f.module)
                if self.hint_types(v, st) == {"any"} and "any" not in ts:
                    self.sym_types[v] = ts
        saved = st.env
        saved_pc = st.pc
        st.env = env
        self.frames.append((f, f.module, cls or f.cls, lam_env))
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, st)
                st.env = saved
                return v
            fl = self.exec_block(f.node.body, st)
        finally:
            self.frames.pop()
        return self.finish_call(fl, st, saved, saved_pc)

    def finish_call(self, fl, st, saved, saved_pc):
        res = None
        if fl.ret is not None:
            res = fl.ret
        if fl.fall is not None:
            c, s = fl.fall
            if res is None:
                res = (c, s, NONE)
            else:
                res = (disj(res[0], c), join_states(res[0], res[1], s, saved_pc), phi(res[0], res[2], NONE))
        if res is None:
            st.env = saved
            raise Unreachable()
        st.heap = res[1].heap
        st.env = saved
        st.pc = saved_pc | facts_of(res[0])
        return res[2]

    def instantiate(self, c, pos, kws, st, node):
        r = self.policy.new(self, c, pos, kws, st, node)
        if r is not None:
            return r
        if c.is_enum:
            return mk("call", c.name, *pos)
        self.emit("new", c, tuple(pos), tuple(sorted((k, v) for k, v in kws.items())), node=node, st=st)
        o = self.alloc(st, HObj("inst", c, None, (), {}, {"cls": c}))
        init = c.lookup("__init__")
        if init is not None:
            self.call_func(init, o, pos, kws, st, node)
        elif c.is_dataclass:
            names = []
            for k in reversed([x for x in c.mro if isinstance(x, ClassInfo)]):
                names.extend(n for n in k.ann if n not in names)
            ent = {}
            for i, n in enumerate(names):
                if i < len(pos):
                    ent[n] = pos[i]
                elif n in kws:
                    ent[n] = kws[n]
                else:
                    at = c.lookup_attr(n)
                    ent[n] = self.const_expr(at[1], at[0].module, n) if at else mk("missing", n)
            ob = st.heap[o]
            st.heap[o] = HObj("inst", c, None, (), ent, ob.meta)
        return o

    def heap_method(self, b, name, pos, kws, st, node):
        o = st.heap[b]
        if o.kind == "dict":
            return self.m_dict(b, o, name, pos, kws, st, node)
        return self.m_list(b, o, name, pos, kws, st, node)

    def m_list(self, b, o, name, pos, kws, st, node):
        if name in ("append", "add") and len(pos) == 1:
            if name == "add" and any(v is pos[0] and g is TRUE for g, v in o.items):
                return NONE
            st.heap[b] = o.with_items(o.items + ((TRUE, pos[0]),))
            self.emit("listop", b, name, tuple(pos), node=node, st=st)
            return NONE
        if name in ("extend", "update") and len(pos) == 1:
            it = self.unwrap_iter(pos[0], st, node)
            fi = self.finite_items(it, st)
            if fi is None:
                oo = st.heap.get(it) if it.op == "obj" else None
                if oo is not None and oo.kind in ("list", "set", "tuplelist"):
                    fi = [(mk("loop", oo.base), self.elem_of(oo.base))] + list(oo.items)
                else:
                    fi = [(mk("loop", it), self.elem_of(it))]
            st.heap[b] = o.with_items(o.items + tuple(fi))
            self.emit("listop", b, name, tuple(pos), node=node, st=st)
            return NONE
        if name == "pop":
            self.emit("listop", b, name, tuple(pos), node=node, st=st)
            if len(pos) == 1 and is_const(pos[0]) and cval(pos[0]) == 0 and o.items and o.base is None:
                r, rest, before = NONE, [], FALSE
                for g, v in o.items:
                    if before is not FALSE:
                        g2 = conj(g, before)
                        if g2 is not FALSE:
                            rest.append((g2, v))
                    before = disj(before, g)
                for g, v in reversed(o.items):
                    r = v if r is NONE else phi(g, v, r)
                st.heap[b] = o.with_items(tuple(rest))
                return r
            if o.items and not pos:
                g, v = o.items[-1]
                if g is TRUE:
                    st.heap[b] = o.with_items(o.items[:-1])
                    return v
                if all(x[1] is v for x in o.items if x[0] is not TRUE):
                    k = len(o.items)
                    while k and o.items[k - 1][0] is not TRUE:
                        k -= 1
                    if disj(*[x[0] for x in o.items[k:]]) is TRUE:
                        st.heap[b] = o.with_items(o.items[:k])
                        return v
                self.emit("popguarded", b, g, v, node=node, st=st)
                st.heap[b] = o.with_items(o.items[:-1])
                return v
            self.emit("underflow", b, node=node, st=st)
            return mk("popped", b)
        if name == "clear":
            st.heap[b] = HObj(o.kind, None, None, ())
            self.emit("listop", b, name, (), node=node, st=st)
            return NONE
        if name == "copy":
            return self.new_list(st, o.items, o.kind, o.base)
        if name == "insert" and len(pos) == 2:
            st.heap[b] = o.with_items(o.items + ((TRUE, pos[1]),))
            self.emit("listop", b, name, tuple(pos), node=node, st=st)
            return NONE
        if name in ("remove", "discard", "sort", "reverse", "difference_update", "intersection_update"):
            self.emit("listop", b, name, tuple(pos), node=node, st=st)
            if name == "reverse" and o.base is None:
                st.heap[b] = o.with_items(tuple(reversed(o.items)))
                return NONE
            if name in ("sort", "reverse"):
                return NONE
            self.note(f"list.{name}", node)
            st.heap[b] = HObj(o.kind, None, mk("after", name, o.base or NONE, *[mk("gi", g, v) for g, v in o.items]))
            return NONE
        self.emit("mcall", b, name, tuple(pos), tuple(sorted(kws.items())), node=node, st=st)
        return mk("mcall", self.snapshot(b, st), name, *pos)

    def snapshot(self, b, st):
        """heap independent description of a heap list"""
        o = st.heap.get(b)
        if o is None or o.kind not in ("list", "set", "tuplelist"):
            return b
        return mk("snap", o.kind, o.base or NONE, *[mk("gi", g, v) for g, v in o.items])

    def m_dict(self, b, o, name, pos, kws, st, node):
        if name == "get" and pos:
            d = pos[1] if len(pos) > 1 else kws.get("default", NONE)
            k = self.refine(pos[0], st)
            if k in o.entries:
                return self.fill(o.entries[k], d)
            if is_const(k) and o.base is None and all(is_const(x) for x in o.entries):
                return d
            tab = self.const_table(o)
            if tab is not None:
                return self.table_item(tab, k, d, st)
            return mk("dget", b, k, d)
        if name in ("items", "keys", "values") and not pos:
            return mk("dictview", b, name)
        if name == "update":
            for p in pos:
                self.dict_update(b, p, st, node)
            for k, v in kws.items():
                if k not in ("*", "**"):
                    st.heap[b] = st.heap[b].with_entry(C(k), v)
            for p in pos:
                po = st.heap.get(p)
                if po is not None and po.kind == "dict" and po.base is None:
                    for k, v in po.entries.items():
                        self.emit("setitem", b, k, v, node=node, st=st)
                else:
                    self.emit("setitem", b, NONE, p, node=node, st=st)
            for k, v in kws.items():
                self.emit("setitem", b, C(k) if isinstance(k, str) else NONE, v, node=node, st=st)
            return NONE
        if name == "setdefault" and pos:
            k = pos[0]
            d = pos[1] if len(pos) > 1 else NONE
            if k in o.entries:
                v = self.fill(o.entries[k], d)
            else:
                v = d if o.base is None and is_const(k) else phi(mk("in", k, b), mk("item", b, k), d)
            st.heap[b] = o.with_entry(k, v)
            self.emit("setitem", b, k, v, node=node, st=st)
            return v
        if name == "pop" and pos:
            k = pos[0]
            d = pos[1] if len(pos) > 1 else mk("missing", "key")
            v = self.fill(o.entries[k], d) if k in o.entries else (
                d if o.base is None and is_const(k) else mk("dget", b, k, d))
            st.heap[b] = o.with_entry(k, ABSENT)
            self.emit("delitem", b, k, node=node, st=st)
            return v
        if name == "copy":
            return self.new_dict(st, dict(o.entries), o.base)
        if name == "clear":
            st.heap[b] = HObj("dict")
            self.emit("setitem", b, NONE, NONE, node=node, st=st)
            return NONE
        self.emit("mcall", b, name, tuple(pos), tuple(sorted(kws.items())), node=node, st=st)
        return mk("mcall", b, name, *pos)

    def call_method(self, recv, name, pos, kws, st, node):
        if recv.op == "phi":
            recv = self.refine(recv, st)
        o = st.heap.get(recv)
        if o is not None and o.kind in ("list", "set", "dict", "tuplelist"):
            return self.heap_method(recv, name, pos, kws, st, node)
        if recv.op == "super":
            return NONE      # object.__init__ and the like
        if is_const(recv) and isinstance(cval(recv), str):
            if name == "join" and len(pos) == 1:
                it = self.unwrap_iter(pos[0], st, node)
                fi = self.finite_items(it, st)
                if fi is not None:
                    if all(g is TRUE for g, _ in fi):
                        parts = []
                        for i, (_, v) in enumerate(fi):
                            if i:
                                parts.append(recv)
                            parts.append(v)
                        return self.concat(parts)
                    return mk("join", recv, *[mk("gi", g, v) for g, v in fi])
                oo = st.heap.get(it) if it.op == "obj" else None
                if oo is not None:
                    return mk("join", recv, self.snapshot(it, st))
                return mk("join", recv, it)
            if name in ("upper", "lower", "strip", "startswith", "endswith") and all(is_const(p) for p in pos):
                return C(getattr(cval(recv), name)(*[cval(p) for p in pos]))
            if name == "format" and not kws:
                txt = cval(recv)
                segs = txt.split("{}")
                if len(segs) == len(pos) + 1 and "{" not in "".join(segs):
                    parts = []
                    for i, sg in enumerate(segs):
                        parts.append(C(sg))
                        if i < len(pos):
                            parts.append(pos[i])
                    return self.concat(parts)
        r = self.policy.mcall(self, recv, name, pos, kws, st, node)
        if r is not None:
            return r
        if recv.op == "dictview" or recv.op == "obj":
            pass
        self.emit("mcall", recv, name, tuple(pos), tuple(sorted(kws.items())), node=node, st=st)
        pos = [self.snapshot(p, st) if p.op == "obj" else p for p in pos]
        return mk("mcall", recv, name, *pos, *[mk("kw", k, v) for k, v in sorted(kws.items())])

    def plain_dict(self, t, st):
        """entries of a dictionary with constant keys, or None"""
        o = st.heap.get(t)
        if o is not None and o.kind == "dict" and o.base is None:
            d = {}
            for k, v in o.entries.items():
                k = cval(k) if isinstance(k, T) and is_const(k) else k
                if isinstance(k, T):
                    return None
                d[k] = v
            return d
        return None

    # builtin functions and library calls
    def call_ext(self, name, pos, kws, st, node):
        short = name[9:] if name.startswith("builtins.") else name
        if short in ("len", "int", "float", "iter", "list", "tuple", "sorted", "next", "sum", "max", "min", "reversed", "enumerate", "set") \
                and pos:
            self.need(pos[0], short + "()", st, node)
        elif pos and (short in ("abs", "hex", "bin", "oct", "round", "ord", "chr", "divmod", "decimal.Decimal")
                      or short.startswith("math.") or self.policy.text_needs and (
                          short in ("str", "format") or short.startswith("xml.sax.saxutils."))):
            self.need(pos[0], short + "()", st, node)
        m = getattr(self, "b_" + short.replace(".", "_"), None) if short.replace(".", "_").isidentifier() else None
        if m is not None:
            r = m(pos, kws, st, node)
            if r is not None:
                return r
        r = self.policy.mcall(self, mk("ext", name), "__call__", pos, kws, st, node)
        if r is not None:
            return r
        if name not in ("str", "int", "float", "bool", "len", "isinstance", "range", "enumerate", "zip", "repr",
                        "abs", "min", "max", "sum", "math.isinf", "math.isnan", "type", "id", "ord", "chr"):
            self.emit("xcall", name, tuple(pos), tuple(sorted(kws.items())), node=node, st=st)
        pos = [self.snapshot(p, st) if p.op == "obj" else p for p in pos]
        r = mk("call", name, *pos, *[mk("kw", k, v) for k, v in sorted(kws.items())])
        if name in ("int", "float", "decimal.Decimal") and pos:
            self.decodes.append(r)
        return r

    def b_next(self, pos, kws, st, node):
        """the first of known members"""
        if not 1 <= len(pos) <= 2 or kws or not (isinstance(node, ast.Call) and node.args
                                                 and isinstance(node.args[0], (ast.Call, ast.GeneratorExp))):
            return None
        fi = self.finite_items(self.unwrap_iter(pos[0], st, node), st)
        if fi is None or not fi or len(fi) > 6 or any(x.op == "loop" for g, _ in fi for x in walk(g)):
            return None
        if len(pos) == 1 and fi[0][0] is not TRUE:
            return None
        r = pos[1] if len(pos) == 2 else fi[0][1]
        for g, v in reversed(fi):
            r = phi(g, v, r)
        return r

    def b_isinstance(self, pos, kws, st, node):
        if len(pos) == 2:
            return self.make_inst(self.refine(pos[0], st), pos[1], st)

    def b_issubclass(self, pos, kws, st, node):
        a, b = pos
        if b.op == "tup":
            return disj(*[self.b_issubclass([a, x], kws, st, node) for x in b.a])
        if a.op == "phi":
            return disj(conj(a.a[0], self.b_issubclass([a.a[1], b], kws, st, node)),
                        conj(neg(a.a[0]), self.b_issubclass([a.a[2], b], kws, st, node)))
        if a.op == "cls":
            if b.op == "cls":
                return C(a.a[0].is_sub(b.a[0]))
            if b.op == "ext":
                return C(a.a[0].is_sub(b.a[0]))
        if a.op == "ext" and b.op in ("cls", "ext") and a.a[0] in BUILTIN_TYPES:
            if b.op == "cls":
                return FALSE
            return C(a.a[0] == b.a[0] or (a.a[0] == "bool" and b.a[0] == "int") or b.a[0] == "object")
        return mk("issub", a, b)

    def b_map(self, pos, kws, st, node):
        """[f(x) for x in xs]"""
        if len(pos) != 2 or kws or not isinstance(node, ast.Call) or any(isinstance(a, ast.Starred) for a in node.args):
            return None
        return self.each(node, "[_f_(_x_) for _x_ in _xs_]", st, _f_=pos[0], _xs_=pos[1])

    def b_filter(self, pos, kws, st, node):
        """[x for x in xs if f(x)]"""
        if len(pos) != 2 or kws or not isinstance(node, ast.Call) or any(isinstance(a, ast.Starred) for a in node.args):
            return None
        return self.each(node, "[_x_ for _x_ in _xs_ if " + ("_x_" if pos[0] is NONE else "_f_(_x_)") + "]", st, _f_=pos[0], _xs_=pos[1])

    def each(self, node, text, st, **env):
        k = (node, text)
        if k not in self.synth:
            e = ast.parse(text, mode="eval").body
            for n in ast.walk(e):
                ast.copy_location(n, node)
            self.synth[k] = e
        before = {n: st.env.get(n) for n in env}
        st.env.update(env)
        r = self.ev(self.synth[k], st)
        for n, v in before.items():
            st.env.pop(n, None)
            if v is not None:
                st.env[n] = v
        return r

    def b_len(self, pos, kws, st, node):
        x = self.refine(pos[0], st)
        if is_const(x) and isinstance(cval(x), str):
            return C(len(cval(x)))
        if x.op == "tup":
            return C(len(x.a))
        o = st.heap.get(x)
        if x in self.growing:
            return mk("call", "len", x)
        if o is not None and o.kind in ("list", "set", "tuplelist") and o.base is None \
                and all(g is TRUE for g, _ in o.items):
            return C(len(o.items))
        if o is not None and o.kind in ("list", "tuplelist") and o.base is None and len(o.items) <= 5 \
                and not any(y.op == "loop" for g, _ in o.items for y in walk(g)):
            def count(i, n):
                if i == len(o.items):
                    return C(n)
                return phi(o.items[i][0], count(i + 1, n + 1), count(i + 1, n))
            return count(0, 0)
        if o is not None and o.kind == "dict" and o.base is None and all(
                self.present(v) is TRUE for v in o.entries.values()):
            return C(len(o.entries))
        for c in self.classes_of(x, st):
            f = c.lookup("__len__")
            if f is not None:
                return self.call_func(f, x, [], {}, st, node)
        return mk("call", "len", x)

    def b_iter(self, pos, kws, st, node):
        x = self.refine(pos[0], st)
        for c in self.classes_of(x, st):
            f = c.lookup("__iter__")
            if f is not None and not f.is_generator:
                return self.call_func(f, x, [], {}, st, node)
        return mk("call", "iter", x)

    def b_str(self, pos, kws, st, node):
        if pos and pos[0].op == "phi":
            v = self.refine(pos[0], st)
            if v.op == "phi" and len(const_leaves(v)) <= 4:
                return phi(v.a[0], self.b_str([v.a[1]], kws, st, node), self.b_str([v.a[2]], kws, st, node))
        if not pos:
            return C("")
        x = self.refine(pos[0], st)
        if is_const(x) and cval(x) is not None and not isinstance(cval(x), float):
            return C(str(cval(x)))
        if self.certain_types(x, st) == {"str"}:
            return x
        if x.op == "call" and x.a[0] == "str":
            return x
        for c in self.classes_of(x, st):
            f = c.lookup("__str__")
            if f is not None and len(self.classes_of(x, st)) == 1 and not f.is_generator and x.op != "em" \
                    and not c.is_enum:
                return self.call_func(f, x, [], {}, st, node)
        return mk("call", "str", x)

    def b_bool(self, pos, kws, st, node):
        return self.truth(pos[0], st) if pos else FALSE

    def b_int(self, pos, kws, st, node):
        if len(pos) == 1 and is_const(pos[0]) and isinstance(cval(pos[0]), (int, bool)):
            return C(int(cval(pos[0])))
        return None

    def b_hasattr(self, pos, kws, st, node):
        x, n = pos
        if is_const(n):
            o = st.heap.get(x)
            if o is not None and o.kind == "inst" and o.base is None and o.cls is not None:
                if cval(n) in o.entries:
                    return self.present(o.entries[cval(n)])
                return C(o.cls.lookup(cval(n)) is not None)
        return mk("hasattr", x, n)

    def b_setattr(self, pos, kws, st, node):
        b, n, v = pos
        if is_const(n) and isinstance(cval(n), str):
            self.setattr(b, cval(n), v, st, node)
            return NONE
        self.note("setattr with computed name", node)
        self.emit("setattrdyn", b, n, v, node=node, st=st)
        return NONE

    def b_getattr(self, pos, kws, st, node):
        if is_const(pos[1]) and isinstance(cval(pos[1]), str):
            return self.getattr(pos[0], cval(pos[1]), st, node)
        return mk("getattr", *pos)

    def b_vars(self, pos, kws, st, node):
        b = pos[0]
        o = st.heap.get(b)
        if o is not None and o.kind == "inst" and o.base is None:
            return self.new_dict(st, {C(k): v for k, v in o.entries.items()})
        return mk("vars", b)

    def b_type(self, pos, kws, st, node):
        if len(pos) == 1:
            ct = self.certain_types(pos[0], st)
            if pos[0].op == "obj" and ct and len(ct) == 1 and isinstance(next(iter(ct)), ClassInfo):
                return mk("cls", next(iter(ct)))
        return mk("call", "type", *pos)

    def b_list(self, pos, kws, st, node):
        if not pos:
            return self.new_list(st)
        it = self.unwrap_iter(pos[0], st, node)
        fi = self.finite_items(it, st)
        if fi is not None:
            return self.new_list(st, fi)
        o = st.heap.get(it) if it.op == "obj" else None
        if o is not None and o.kind in ("list", "set", "tuplelist"):
            return self.new_list(st, o.items, base=o.base)
        return self.new_list(st, [(mk("loop", it), self.elem_of(it))])

    def b_tuple(self, pos, kws, st, node):
        if not pos:
            return mk("tup")
        it = self.unwrap_iter(pos[0], st, node)
        fi = self.finite_items(it, st)
        if fi is not None and all(g is TRUE for g, _ in fi):
            return mk("tup", *[v for _, v in fi])
        r = self.b_list(pos, kws, st, node)
        o = st.heap[r]
        st.heap[r] = HObj("tuplelist", None, o.base, o.items)
        return r

    def b_set(self, pos, kws, st, node):
        r = self.b_list(pos, kws, st, node)
        o = st.heap[r]
        st.heap[r] = HObj("set", None, o.base, o.items)
        return r

    b_frozenset = b_set

    def b_dict(self, pos, kws, st, node):
        d = self.new_dict(st)
        if pos:
            self.dict_update(d, pos[0], st, node)
        for k, v in kws.items():
            if k == "**":
                self.dict_update(d, v, st, node)
            else:
                st.heap[d] = st.heap[d].with_entry(C(k), v)
        return d

    b_collections_OrderedDict = b_dict

    def b_any(self, pos, kws, st, node):
        o = st.heap.get(pos[0])
        if o is not None and o.base is None and o.kind in ("list", "set", "tuplelist"):
            return disj(*[conj(g, self.truth(v, st)) for g, v in o.items])
        if pos[0].op == "tup":
            return disj(*[self.truth(v, st) for v in pos[0].a])
        return None

    def b_all(self, pos, kws, st, node):
        o = st.heap.get(pos[0])
        if o is not None and o.base is None and o.kind in ("list", "set", "tuplelist"):
            return conj(*[disj(neg(g), self.truth(v, st)) for g, v in o.items])
        if pos[0].op == "tup":
            return conj(*[self.truth(v, st) for v in pos[0].a])
        return None

    def b_reversed(self, pos, kws, st, node):
        fi = self.finite_items(pos[0], st)
        if fi is not None and not any(y.op == "loop" for g, _ in fi for y in walk(g)):
            return self.new_list(st, list(reversed(fi)))
        return None

    def b_print(self, pos, kws, st, node):
        self.emit("print", tuple(pos), tuple(sorted(kws.items())), node=node, st=st)
        return NONE

    def b_sys_stderr_write(self, pos, kws, st, node):
        self.emit("print", tuple(pos), (), node=node, st=st)
        return NONE

    def b_open(self, pos, kws, st, node):
        self.emit("open", tuple(pos), tuple(sorted(kws.items())), node=node, st=st)
        return mk("call", "open", *pos)

    # ------------------------------------------------------------ entry points
    def run(self, f, args, st, selfterm=None):
        """
        Analyse function f with given env. Returns (value, state, events) or
        None when every path raises.
        """
        for p in f.pos_nodes:
            an = f.annotation(p)
            v = args.get(p)
            if an is not None and v is not None and v.op == "sym" and v not in self.sym_types:
                self.sym_types[v] = self.prog.ann_types(an, f.module)
        outer = self.events
        self.events = []
        st.env = dict(args)
        self.frames.append((f, f.module, f.cls, None))
        try:
            try:
                fl = self.exec_block(f.node.body, st)
                val = self.finish_call(fl, st, {}, st.pc)
            except Unreachable:
                val = None
        finally:
            self.frames.pop()
        ev = self.events
        self.events = outer
        return val, st, ev
