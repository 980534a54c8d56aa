"""
Constructor summaries: for every model class, the constructor arguments it
accepts (followed through **kwargs to its bases), the attribute values of the
new object as terms over those arguments, the conditions under which it
raises, and the types its attributes can have.
"""
import ast
from .terms import (T, mk, C, NONE, TRUE, FALSE, is_const, cval, sym, attr, conj, disj, neg, phi, walk, show, data_walk,
                    implies, BOOL_OPS, subst)
from .program import ClassInfo
from .interp import Interp, Policy, State, flat_events, Unreachable


def param(p):
    return sym("p:" + p)


class CtorPolicy(Policy):
    """calls are inlined; only the enumeration converters stay opaque"""

    def call(self, ip, f, selfterm, pos, kws, st, node):
        if f.cls is None and f.name in ("xml_to_enum", "enum_to_xml"):
            return mk("call", f.name, *[ip.refine(p, st) for p in pos])
        return None


class Ctor:
    def __init__(self, cls):
        self.cls = cls
        self.params = []          # accepted argument names in order
        self.required = []
        self.types = {}           # parameter -> annotation types (or empty)
        self.defaults = {}
        self.entries = {}
        self.heap = {}
        self.raises = []          # (guard, term, func, line)
        self.bad = []             # (kind, func, name)
        self.events = []
        self.obj = None
        self.attr_types = {}      # attribute -> set of types or None
        self.imprecise = []
        self.dead = False


class CtorAnalysis:
    def __init__(self, prog):
        self.prog = prog
        self.cache = {}

    def accepted(self, cls):
        """[(name, FuncInfo, required)] accepted by calling the class"""
        res, seen = [], set()
        mro = [c for c in cls.mro if isinstance(c, ClassInfo)]
        explicit = set()
        for c in mro:
            f = c.methods.get("__init__")
            if f is None:
                continue
            for p in f.pos[1:] + f.kwonly:
                if p in seen:
                    continue
                seen.add(p)
                if p not in explicit:
                    res.append((p, f, p not in f.defaults))
            if not f.kwarg:
                break
            # names passed explicitly to the base constructor are not open to the caller
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__init__":
                    base = self._next_init(mro, c)
                    for i, a in enumerate(n.args):
                        if base is not None and not isinstance(a, ast.Starred) and i + 1 < len(base.pos):
                            explicit.add(base.pos[i + 1])
                    for k in n.keywords:
                        if k.arg:
                            explicit.add(k.arg)
        return res

    @staticmethod
    def _next_init(mro, c):
        for b in mro[mro.index(c) + 1:]:
            if "__init__" in b.methods:
                return b.methods["__init__"]
        return None

    def get(self, cls):
        r = self.cache.get(cls)
        if r is None:
            r = self.cache[cls] = self._run(cls)
        return r

    def _run(self, cls):
        c = Ctor(cls)
        acc = self.accepted(cls)
        kws = {}
        ip = Interp(self.prog, CtorPolicy())
        ip.next_id = 400000
        for p, f, req in acc:
            c.params.append(p)
            if req:
                c.required.append(p)
            t = param(p)
            an = f.annotation(p)
            ts = self.prog.ann_types(an, f.module) if an is not None else set()
            c.types[p] = ts
            if ts and "any" not in ts:
                d = f.defaults.get(p)
                ip.sym_types[t] = ts | {"None"} if isinstance(d, ast.Constant) and d.value is None else ts
            if p in f.defaults:
                c.defaults[p] = f.defaults[p]
            kws[p] = t
        st = State()
        ip.frames.append((cls.lookup("__init__"), cls.module, cls))
        try:
            o = ip.instantiate(cls, [], kws, st, None)
        except Unreachable:
            c.dead = True
            c.events = ip.events
            return c
        finally:
            ip.frames.pop()
        c.obj = o
        c.heap = st.heap
        c.state = st
        c.ip = ip
        c.entries = {k: v for k, v in st.heap[o].entries.items() if isinstance(k, str)} if o in st.heap else {}
        c.events = ip.events
        c.imprecise = ip.imprecise
        for g, e in flat_events(ip.events):
            if e.kind == "raise":
                c.raises.append((g, e.data[0] if e.data else NONE, e.func, e.line))
            elif e.kind in ("badkw", "missing", "badpos", "dupkw"):
                c.bad.append((e.kind, e.data[0], e.data[1], g))
        return c

    # ------------------------------------------------------------ types
    def attr_type(self, cls, a):
        """types the attribute can have after construction; None when unknown"""
        key = (cls, a)
        memo = self.__dict__.setdefault("_at", {})
        if key not in memo:
            memo[key] = None
            memo[key] = self._attr_type(cls, a)
        return memo[key]

    def attr_type_first(self, cls, a):
        """constructor-derived types; the annotation supplies list element types"""
        key = (cls, a)
        memo = self.__dict__.setdefault("_af", {})
        if key not in memo:
            memo[key] = None
            c = self.get(cls)
            if a not in c.entries:
                return None
            d = self._attr_type(cls, a, False)
            an = cls.attr_annotation(a)
            ann = self.prog.ann_types(*an) if an is not None else None
            if d is None or "any" in d or d == {"None"}:
                d = ann
            elif any(x in ("list", "set", "dict", "tuple") for x in d):
                bare = {x for x in d if x in ("list", "set", "dict", "tuple")}
                if ann and any(isinstance(x, tuple) for x in ann):
                    d = (d - bare) | {x for x in ann if isinstance(x, tuple)}
                elif ann:
                    d = ann
                else:
                    d = (d - bare) | self.item_types(c, a)
            memo[key] = d
        return memo[key]

    def attr_absent(self, cls, a):
        """neither the class nor any subclass or base defines the attribute"""
        key = (cls, a)
        memo = self.__dict__.setdefault("_ab", {})
        if key not in memo:
            ks = {cls, *cls.all_subclasses()}
            memo[key] = not any(
                k.lookup(a) or k.lookup_attr(a) or k.lookup_setter(a) or k.attr_annotation(a) or
                not k.known_bases() or a in self.get(k).entries for k in ks)
        return memo[key]

    def item_types(self, c, a):
        """list type derived from the values the constructor puts in the list"""
        ts, kinds = set(), set()
        for g, leaf in leaves(c.entries[a]):
            o = c.state.heap.get(leaf) if leaf.op == "obj" else None
            if o is None or o.kind not in ("list", "tuplelist"):
                continue
            kinds.add("list" if o.kind == "list" else "tuple")
            for ig, v in o.items or ():
                ts |= self.tested_types(c, ig, v) or c.ip.hint_types(v, c.state) or {"any"}
            if o.base is not None:
                ts |= c.ip.hint_types(mk("elem", o.base), c.state) or {"any"}
        return kinds if not ts or "any" in ts else {(k, frozenset(ts)) for k in kinds}

    def tested_types(self, c, g, v):
        """the classes one of which the value must have where it is used"""
        g = conj(g, *[neg(r[0]) for r in c.raises if isinstance(r[0], T) and any(
            y.op == "inst" and y.a[0] is v for y in walk(r[0]))])
        at = {y for y in walk(g) if y.op == "inst" and y.a[0] is v}
        if not at or subst(g, {y: FALSE for y in at}) is not FALSE:
            return set()
        res = set()
        for y in at:
            if subst(g, {z: TRUE if z is y else FALSE for z in at}) is FALSE:
                continue
            t = y.a[1]
            k = t.a[0] if isinstance(t, T) and t.a else t
            if isinstance(k, ClassInfo):
                res.add(k)
            elif isinstance(k, str):
                res.add(k.split(".")[-1])
            else:
                return set()
        return res

    def _attr_type(self, cls, a, prefer_ann=True):
        c = self.get(cls)
        an = cls.attr_annotation(a)
        ann = self.prog.ann_types(*an) if an is not None else None
        v = c.entries.get(a)
        if v is None:
            return ann
        if prefer_ann and ann and "any" not in ann and ann != {"None"}:
            return ann
        ts = set()
        for g, leaf in leaves(v):
            t = c.ip.certain_types(leaf, c.state)
            if t:
                ts |= t
                continue
            h = c.ip.hint_types(leaf, c.state)
            if not h or "any" in h:
                return ann
            nn = mk("nn", leaf)
            if "None" in h and (implies(g, nn) or conj(g, neg(nn), *[neg(r[0]) for r in c.raises if isinstance(r[0], T) and any(
                    y is nn for y in walk(r[0]))]) is FALSE):
                h = h - {"None"}
            chk = [neg(r[0]) for r in c.raises if isinstance(r[0], T) and any(
                y.op == "inst" and y.a[0] is leaf for y in walk(r[0]))]
            if chk and ann and "any" not in ann:
                h = h | {x for x in ann if x != "None"}
            for x in list(h):
                ty = type_term(x)
                if ty is not None and conj(g, mk("inst", leaf, ty), *chk) is FALSE:
                    h = h - {x}
            ts |= h
        return ts or ann


def type_term(x):
    if isinstance(x, ClassInfo):
        return mk("cls", x)
    if isinstance(x, tuple):
        return mk("ext", x[0])
    if x in ("str", "int", "float", "bool", "list", "dict", "tuple", "set", "bytes"):
        return mk("ext", x)
    return None


def leaves(v, g=TRUE):
    if v.op == "phi":
        yield from leaves(v.a[1], conj(g, v.a[0]))
        yield from leaves(v.a[2], conj(g, neg(v.a[0])))
    else:
        yield g, v
