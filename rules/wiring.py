"""
Elements wired together by name: events, access points and connectors refer to what was named.

The convenience methods are followed symbolically. Searching (a function that returns from within a
loop, a public look-up) and construction are opaque, so that what is created is described by the
arguments of its constructor in terms of the look-ups. The methods are then judged case by case: for
each combination of kinds of what the look-ups give, which conditions hold is fixed, and what
happens is read off.
"""
import ast
from sa.terms import T, mk, C, NONE, TRUE, FALSE, attr, conj, disj, neg, walk, subst, show, is_const, cval
from sa.interp import Ev
from sa.program import ClassInfo
from sa.methods import MethodAnalysis, MethodPolicy, ME
from sa.ctor import leaves, param
from rules import documents
from rules.documents import library, parts, unclear

TOOLS = ("split_ref", "split_ref_strict", "make_unique_name_in_list")

LOOKUPS = ("ref", "root_collection", "get_valid_parent", "get_valid_behavior_settings", "get_value", "get_port_interface",
           "get_data_element_in_port", "get_operation_in_port", "get_mode_declaration_group_in_port")


def searches(f):
    """returns from within a loop"""
    m = f.__dict__.get("_searches")
    if m is None:
        m = any(isinstance(l, (ast.For, ast.While)) and any(isinstance(r, ast.Return) for r in ast.walk(l))
                for l in ast.walk(f.node)) if not isinstance(f.node, ast.Lambda) else False
        f._searches = m
    return m


class WirePolicy(MethodPolicy):
    parts = False      # whether the private parts of a look-up are followed

    def call(self, ip, f, selfterm, pos, kws, st, node):
        c = f.cls
        if ip.frames and not f.is_property and not f.is_classmethod and (
                c is None and f.name in TOOLS or
                c is not None and library(c) and not f.name.startswith("__") and not f.is_static and
                (f.name.startswith(("find", "append_")) or f.name in LOOKUPS or searches(f) and not (self.parts and f.name.startswith("_")))):
            kws = self.named(f, pos, kws, selfterm is not None)
            ip.emit("lib", f, selfterm or NONE, kws, node=node, st=st)
            return mk("mcall", selfterm or NONE, f.name, *[mk("kw", k, v) for k, v in kws])
        return super().call(ip, f, selfterm, pos, kws, st, node)

    def new(self, ip, c, pos, kws, st, node):
        if c.module.name != "autosar.xml.element" or c.is_enum or c.is_dataclass:
            return None
        init = c.lookup("__init__")
        kws = self.named(init, pos, kws, True) if init is not None else ()
        kws = tuple((k, v) for k, v in kws if v is not NONE)
        ip.emit("made", c, kws, node=node, st=st)
        return mk("made", c, *[mk("kw", k, v) for k, v in kws])

    @staticmethod
    def named(f, pos, kws, bound):
        """arguments by the names of the parameters, in the order of the parameters"""
        names = list(f.pos)[1 if bound and not f.is_static else 0:]
        d = dict(kws)
        for i, p in enumerate(pos):
            d[names[i] if i < len(names) else f"*{i}"] = p
        order = {n: i for i, n in enumerate(names)}
        return tuple(sorted(((str(k), v) for k, v in d.items()), key=lambda kv: (order.get(kv[0], 99), kv[0])))


class LookupPolicy(WirePolicy):
    parts = True


def tidy(t, memo=None):
    """one form for look-ups: arguments in order, the owner of an object as its parent"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    a = tuple(tidy(x, memo) if isinstance(x, T) else x for x in t.a)
    if t.op == "mcall":
        a = tuple(x.a[1] if isinstance(x, T) and x.op == "kw" and not x.a[0].startswith("*") else x for x in a)
        if a[1] == "get_valid_parent" and len(a) == 2:
            r = attr(a[0], "parent")
        elif a[1] in ("get_value",) and len(a) == 3 and is_const(a[2]):
            r = attr(a[0], cval(a[2]))
        else:
            r = mk("mcall", *a)
    elif t.op == "call" and a[0] == "str" and len(a) == 2 and isinstance(a[1], T) and a[1].op == "attr" and a[1].a[1].endswith("_ref"):
        r = attr(a[1], "value")
    elif t.op == "phi":
        from sa.terms import phi
        r = phi(*a)
    elif t.op == "and":
        r = conj(*a)
    elif t.op == "or":
        r = disj(*a)
    elif t.op == "not":
        r = neg(a[0])
    else:
        r = mk(t.op, *a)
    memo[t] = r
    return r


KNOWN_OPS = ("sym", "c", "attr", "item", "elem", "mcall", "fstr", "slice", "kw", "cls", "enum", "em", "not", "and", "or", "nn", "truthy",
             "eq", "in", "inst", "loop", "phi", "tup", "lt", "le", "made", "concat", "list", "is")


def clear(t):
    """made only of accesses the rule understands"""
    return all(x.op in KNOWN_OPS or x.op == "call" and x.a[0] in ("str", "len", "type") for x in walk(t))


class Case:
    """what holds in one case: the classes of terms, which are absent, the lengths and values known"""

    def __init__(self, prog, kinds=None, none=(), present=(), lens=None, vals=None, true=(), false=()):
        self.prog = prog
        self.kinds = kinds or {}
        self.none = set(none)
        self.present = set(present)
        self.lens = lens or {}
        self.vals = vals or {}
        self.fixed = {**{t: TRUE for t in true}, **{t: FALSE for t in false}}
        self.fixed.update({mk("eq", t.a[1], t.a[0]): v for t, v in list(self.fixed.items()) if t.op == "eq"})

    def const(self, t):
        """(True, value) of a term known in this case"""
        if is_const(t):
            return True, cval(t)
        if t in self.vals:
            return True, self.vals[t]
        if t in self.none:
            return True, None
        if t.op == "call" and t.a[0] == "len" and t.a[1] in self.lens:
            return True, self.lens[t.a[1]]
        if t.op == "call" and t.a[0] == "len" and self.const(t.a[1])[0]:
            v = self.const(t.a[1])[1]
            return (True, len(v)) if isinstance(v, str) else (False, None)
        return False, None

    def atom(self, t):
        if t in self.fixed:
            return self.fixed[t]
        b = None
        if t.op in ("nn", "truthy"):
            x = t.a[0]
            if x in self.none:
                b = False
            elif x in self.kinds or x in self.present or x.op == "made":
                b = True
            elif x in self.lens and t.op == "truthy":
                b = self.lens[x] > 0
            elif self.const(x)[0]:
                v = self.const(x)[1]
                b = bool(v) if t.op == "truthy" else v is not None
        elif t.op == "inst":
            x = t.a[0]
            if x in self.none:
                b = False
            elif x in self.kinds or x.op == "made":
                k = self.kinds[x] if x in self.kinds else x.a[0]
                rs = [self.sub(k, c) for c in t.a[1:]]
                b = True if True in rs else None if None in rs else False
        elif t.op == "eq":
            (k1, v1), (k2, v2) = self.const(t.a[0]), self.const(t.a[1])
            if k1 and k2:
                b = v1 == v2
            elif k1 != k2:
                full = self.fixed.get(mk("truthy", t.a[1] if k1 else t.a[0]))
                if full is not None and bool(v1 if k1 else v2) is not (full is TRUE):
                    b = False
        elif t.op in ("lt", "le"):
            (k1, v1), (k2, v2) = self.const(t.a[0]), self.const(t.a[1])
            if k1 and k2 and isinstance(v1, (int, float)) and isinstance(v2, (int, float)):
                b = v1 < v2 if t.op == "lt" else v1 <= v2
        elif t.op == "in":
            k, v = self.const(t.a[0])
            es = t.a[1].a if t.a[1].op in ("tup", "list") else None
            if k and es is not None and all(is_const(x) for x in es):
                b = v in [cval(x) for x in es]
            elif k and is_const(t.a[1]) and isinstance(cval(t.a[1]), (tuple, list, frozenset)):
                b = v in cval(t.a[1])
        return None if b is None else TRUE if b else FALSE

    @staticmethod
    def sub(k, c):
        c = c.a[0] if isinstance(c, T) and c.op == "cls" else c
        name = getattr(c, "name", None) or (c.a[0] if isinstance(c, T) and c.op in ("ext", "sym") else c if isinstance(c, str) else None)
        if isinstance(k, str):
            return None if name is None else k == name
        if isinstance(c, ClassInfo):
            return c in k.mro
        return False if name in ("str", "int", "float", "list", "tuple", "dict", "bool") else None

    def reduce(self, t):
        for _ in range(6):
            m = {}
            for x in walk(t):
                if x.op in ("nn", "truthy", "inst", "eq", "lt", "le", "in", "loop", "is", "mcall") or x in self.fixed:
                    b = self.atom(x)
                    if b is not None:
                        m[x] = b
            if not m:
                break
            t = subst(t, m)
        return t

    def run(self, flat):
        """(guard, event) of what may happen in this case"""
        memo = {}

        def red(x):
            if isinstance(x, T):
                if x not in memo:
                    memo[x] = self.reduce(x)
                return memo[x]
            return tuple(red(y) for y in x) if isinstance(x, tuple) else x
        res = []
        for g, e in flat:
            g = red(g)
            if g is not FALSE:
                res.append((g, Ev(e.kind, red(tuple(e.data)), e.line, e.func, e.pc)))
        return res


class Wiring:
    def __init__(self, s, rep):
        self.s = s
        self.rep = rep
        self.prog = s.prog
        self.ma = MethodAnalysis(s.prog, s.ctors, WirePolicy)
        self.k = {n: s.prog.cls(n) for n in ("ProvidePortPrototype", "RequirePortPrototype", "PRPortPrototype")}

    def method(self, cls, name):
        """(flat events, value) of a method"""
        f = cls.lookup(name)
        if f is None:
            self.rep.skip(f"{cls.name}.{name} does not exist")
            return None
        r = self.ma.run(cls, f)
        if r.failed or r.value is None and not r.events:
            self.rep.skip(f"{cls.name}.{name}: {r.failed}")
            return None
        self.at = f"{cls.name}.{name}"

        def td(x):
            return tidy(x) if isinstance(x, T) else tuple(td(y) for y in x) if isinstance(x, tuple) else x
        flat = [(td(g), Ev(e.kind, td(tuple(e.data)), e.line, e.func, e.pc)) for g, e in r.flat()]
        self.f = f
        self.loop_init = {td(k): {td(x) for x in v} for k, v in r.ip.loop_init.items()}
        return flat, td(r.value) if r.value is not None else None

    @staticmethod
    def alike(c, terms, a, b):
        """other comparisons of two names hold when they are equal, and may hold when they are not"""
        for t in terms:
            for x in walk(t):
                if (x.op == "mcall" and x.a[1] in ("startswith", "endswith", "__contains__") or x.op in ("in", "eq")) and x not in c.fixed:
                    held = set(walk(x))
                    if a in held and b in held:
                        c.fixed[x] = TRUE
        return c

    # ------------------------------------------------------------ what happens in a case
    def refused(self, evs):
        return any(e.kind == "raise" and g is TRUE for g, e in evs)

    def appends(self, evs):
        """(guard, name, value) of what is added to the object"""
        res = []
        for g, e in evs:
            if e.kind == "lib" and e.data[0].name.startswith("append_") and e.data[1] is ME and e.data[2]:
                res.append((g, e.data[0].name[7:], e.data[2][0][1]))
            elif e.kind == "mcall" and e.data[1] == "append" and isinstance(e.data[0], T) and e.data[0].op == "attr" \
                    and e.data[0].a[0] is ME and e.data[2]:
                res.append((g, e.data[0].a[1], e.data[2][0]))
        return res

    def other(self, evs):
        """an effect on the object which the rule does not follow"""
        return any(e.kind == "lib" and e.data[1] is ME and not e.data[0].name.startswith(("find", "get_", "ref", "root_", "append_"))
                   and not searches(e.data[0])
                   or e.kind in ("mcall", "listop", "setattr", "setitem") and isinstance(e.data[0], T)
                   and any(x is ME for x in walk(e.data[0])) and e.data[0].op in ("sym", "attr") and e.data[1] not in ("find", "ref")
                   for g, e in evs)

    def one(self, key, what, evs):
        """the term appended in this case, when exactly one is and without condition"""
        ap = self.appends(evs)
        if self.refused(evs):
            self.rep.find(key + ":refused", f"{what}: refused", self.at)
            return None
        if not ap:
            if self.other(evs):
                self.rep.skip(f"{what}: where the element is added")
            else:
                self.rep.find(key + ":none", f"{what}: nothing is created", self.at)
            return None
        sure = [x for x in ap if x[0] is TRUE]
        if len(sure) > 1:
            self.rep.find(key + ":twice", f"{what}: more than one element is added", self.at)
            return None
        if len(ap) > 1 or not sure:
            g = conj(*[x[0] for x in ap])
            if len(ap) == 1 and clear(g):
                self.rep.find(key + ":when", f"{what}: added only when {show(g)[:200]}", self.at)
            else:
                self.rep.skip(f"{what}: added when {show(ap[0][0])[:160]}")
            return None
        for g, r in evs:
            if r.kind == "raise" and not self.expected(g):
                if clear(g):
                    self.rep.find(key + ":refused", f"{what}: refused when {show(g)[:200]}", self.at)
                else:
                    self.rep.skip(f"{what}: refused when {show(g)[:160]}")
                return None
        self.rep.ok()
        return sure[0][1:]

    def expected(self, g):
        """a refusal which is no matter of this property"""
        return any(p.op == "nn" and p.a[0].op == "mcall" and p.a[0].a[0] is ME and p.a[0].a[1] == "find" for p in parts(g))

    def made(self, key, what, t, cls, fields, other=()):
        """t is a new cls with the given arguments"""
        if t.op != "made":
            self.rep.skip(f"{what}: adds {show(t)[:120]}")
            return None
        if t.a[0].name != cls:
            self.rep.find(key + ":class", f"{what}: a {t.a[0].name} instead of a {cls}", self.at)
            return None
        got = {k.a[0]: k.a[1] for k in t.a[1:]}
        for n, want in fields.items():
            v = got.get(n, NONE)
            if callable(want) and not isinstance(want, T):
                want(v)
                continue
            self.same(f"{key}:{n}", f"{what}: {n}", v, want)
        for n, v in got.items():
            if n not in fields and n not in other:
                if clear(v):
                    self.rep.find(f"{key}:{n}", f"{what}: {n} is set to {show(v)[:120]}", self.at)
                else:
                    self.rep.skip(f"{what}: {n} is {show(v)[:120]}")
        return got

    def same(self, key, what, v, want):
        if v is want:
            self.rep.ok()
            return True
        if v.op == "made" and want.op == "made" and v.a[0] is want.a[0]:
            a, b = ({k.a[0]: k.a[1] for k in x.a[1:]} for x in (v, want))
            return all([self.same(f"{key}.{n}", f"{what}.{n}", a.get(n, NONE), b.get(n, NONE)) for n in sorted({*a, *b})])
        if clear(v):
            self.rep.find(key, f"{what} is {show(v)[:160]} where {show(want)[:160]} was named", self.at)
        else:
            self.rep.skip(f"{what} is {show(v)[:160]}")
        return False

    def named_after(self, key, what, v, names, exact=False):
        """the text v holds the given names"""
        if not clear(v):
            self.rep.skip(f"{what} is {show(v)[:160]}")
            return
        held = set(walk(v))
        missing = [n for n in names if n not in held]
        if missing:
            self.rep.find(key, f"{what} is {show(v)[:160]}, without {show(missing[0])[:80]}", self.at)
        else:
            self.rep.ok()

    def ref(self, t):
        return mk("mcall", t, "ref")

    def new(self, cls, **kw):
        c = self.prog.cls(cls)
        init = c.lookup("__init__")
        order = {n: i for i, n in enumerate(list(init.pos)[1:])}
        return mk("made", c, *[mk("kw", k, v) for k, v in sorted(kw.items(), key=lambda kv: (order.get(kv[0], 99), kv[0]))])


class Connectors(Wiring):
    def run(self):
        self.comp = self.prog.cls("CompositionSwComponentType")
        m = self.method(self.comp, "create_connector")
        if m is None:
            return
        flat, val = m
        res = []
        for p in ("port_ref1", "port_ref2"):
            es = [e for g, e in flat if e.kind == "lib" and e.data[1] is ME and g is TRUE
                  and any(v is param(p) for k, v in e.data[2])]
            if len({e.data[0] for e in es}) != 1 or len(es) != 1:
                self.rep.skip(f"create_connector: how {p} is looked up")
                return
            res.append(es[0])
        if res[0].data[0] is not res[1].data[0]:
            self.rep.skip("create_connector: the ports are looked up differently")
            return
        order = self.search(res[0].data[0])
        if order is None:
            return
        ends = []
        for e in res:
            call = mk("mcall", ME, e.data[0].name, *[v for k, v in e.data[2]])
            ends.append(tuple(mk("item", call, C(i)) for i in order))
        self.at = "CompositionSwComponentType.create_connector"
        self.cases(flat, ends)
        self.prototype()

    # ------------------------------------------------------------ one port named in a text
    def search(self, f):
        """positions of the port and of the component in what the look-up gives"""
        m = self.method(self.comp, f.name)
        if m is None:
            return None
        flat, val = m
        text = None
        for g, e in flat:
            if e.kind == "lib" and e.data[1] is NONE and e.data[0].name in ("split_ref", "split_ref_strict"):
                text = mk("mcall", NONE, e.data[0].name, e.data[2][0][1])
        if text is None:
            self.rep.skip(f"{f.name}: how the text is taken apart")
            return None
        comps = attr(ME, "components")
        each = mk("elem", comps)
        names = [mk("item", text, C(i)) for i in range(2)]
        ws = [p for p in f.pos[1:] if any(x.op == "mcall" and x.a[0] is param(p) and x.a[1] == "find" for x in walk(val))]
        wsp = param(ws[0]) if ws else param("workspace")
        # a port of an inner component
        found = mk("mcall", wsp, "find", attr(attr(each, "type_ref"), "value"))
        found2 = mk("mcall", wsp, "find", attr(each, "type_ref"))
        fs = found2 if any(x is found2 for x in walk(val)) else found
        inner = mk("mcall", fs, "find", names[1])
        swc, prov = self.prog.cls("SwComponentType"), self.k["ProvidePortPrototype"]
        base = dict(lens={text: 2}, true=[mk("loop", comps)])
        hit = mk("eq", attr(each, "name"), names[0])
        looked = lambda o: {x: prov for t in [val, *[g for g, e in flat]] for x in walk(t) if x.op == "mcall" and x.a[0] is o and x.a[1] == "find"}
        types = {x: swc for t in [val, *[g for g, e in flat]] for x in walk(t) if x.op == "mcall" and x.a[0] is wsp and x.a[1] == "find"}
        ports = {p: k for x in types for p, k in looked(x).items()}
        everything = [val, *[g for g, e in flat]]
        c = Case(self.prog, kinds={**ports, **types}, present=[each], **{**base, "true": base["true"] + [hit]})
        self.alike(c, everything, attr(each, "name"), names[0])
        v = c.reduce(val)
        self.rep.count("connector cases")
        order = None
        if v.op == "tup" and len(v.a) == 2 and each in v.a:
            i = v.a.index(each)
            order = (1 - i, i)
            self.same("search:port", "the port of a component", v.a[1 - i], inner)
        elif v.op == "phi" and all(x.op == "eq" and clear(x) and any(y is each for y in walk(x)) and any(y is text for y in walk(x))
                                   for q in parts(v.a[0]) for x in [q.a[0] if q.op == "not" else q]):
            self.rep.find("search:which", f"the component of a port is found only when {show(v.a[0])[:200]}", self.at)
            return None
        else:
            self.rep.skip(f"{f.name}: gives {show(v)[:160]} for the port of a component")
            return None
        for g, e in c.run(flat):
            if e.kind == "raise":
                self.rep.find("search:refused", f"a port of a component is refused when {show(g)[:160]}", self.at) \
                    if clear(g) else self.rep.skip(f"{f.name}: refused when {show(g)[:160]}")
        # what is not there is refused
        for what, kw in (("a port of a component which is not there",
                          dict(kinds={fs: swc, inner: prov}, false=[hit], present=[each])),
                         ("a port which the component does not have",
                          dict(kinds={fs: swc}, none=[inner], true=[mk("loop", comps), hit], present=[each])),
                         ("a port of a component whose type is not there",
                          dict(none=[fs], true=[mk("loop", comps), hit], present=[each]))):
            self.rep.count("connector cases")
            kw = {**base, **kw}
            c = self.alike(Case(self.prog, **kw), everything, attr(each, "name"), names[0])
            evs = c.run(flat)
            rs = [(g, e) for g, e in evs if e.kind == "raise"]
            v = c.reduce(val)
            if self.refused(evs):
                self.rep.ok()
            elif not rs and clear(v):
                self.rep.find("search:missing", f"{what} gives {show(v)[:160]} and is not refused", self.at)
            elif v.op == "tup" and v.a[order[0]] is NONE:
                self.rep.find("search:missing", f"{what} gives no port and is not refused", self.at)
            else:
                self.rep.ok() if all(clear(g) for g, e in rs) and rs else self.rep.skip(f"{f.name}: {what}")
        # a port of the composition
        own = mk("mcall", ME, "find", names[0])
        c = Case(self.prog, kinds=looked(ME), lens={text: 1})
        v = c.reduce(val)
        self.rep.count("connector cases")
        if v.op == "tup" and len(v.a) == 2:
            self.same("search:own", "the port of the composition", v.a[order[0]], own)
            self.same("search:own-component", "the component of a port of the composition", v.a[order[1]], NONE)
        else:
            self.rep.skip(f"{f.name}: gives {show(v)[:160]} for a port of the composition")
        c = Case(self.prog, none=[own], lens={text: 1})
        evs = c.run(flat)
        if self.refused(evs):
            self.rep.ok()
        else:
            self.rep.find("search:own-missing", "a port the composition does not have is not refused", self.at)
        return order

    # ------------------------------------------------------------ the connector
    def cases(self, flat, ends):
        proto = self.prog.cls("SwComponentPrototype")
        P, R = self.k["ProvidePortPrototype"], self.k["RequirePortPrototype"]
        nm = {P: "a provided", R: "a required"}
        for k1 in (P, R):
            for k2 in (P, R):
                for c1 in (True, False):
                    for c2 in (True, False):
                        (p1, m1), (p2, m2) = ends
                        kinds = {p1: k1, p2: k2}
                        none = []
                        for m, c in ((m1, c1), (m2, c2)):
                            if c:
                                kinds[m] = proto
                            else:
                                none.append(m)
                        evs = Case(self.prog, kinds=kinds, none=none).run(flat)
                        where = {True: "port of a component", False: "port of the composition"}
                        what = f"{nm[k1]} {where[c1]} with {nm[k2]} {where[c2]}"
                        self.rep.count("connector cases")
                        if c1 and c2:
                            self.assembly(evs, what, k1, k2, ends)
                        elif not c1 and not c2:
                            if k1 is not k2:
                                a, b = (p1, p2) if k1 is P else (p2, p1)
                                self.check("through", what, evs, "PassThroughSwConnector",
                                           {"provide_port": self.ref(a), "require_port": self.ref(b)}, (a, b))
                        else:
                            (pi, mi), po = ((p1, m1), p2) if c1 else ((p2, m2), p1)
                            self.check("delegation", what, evs, "DelegationSwConnector",
                                       {"inner_port_iref": self.new("PortInCompositionTypeInstanceRef", component_ref=self.ref(mi),
                                                                    port_ref=self.ref(pi)),
                                        "outer_port_ref": self.ref(po)}, (mi, pi, po))

    def assembly(self, evs, what, k1, k2, ends):
        (p1, m1), (p2, m2) = ends
        if k1 is k2:
            if self.refused(evs):
                self.rep.ok()
            elif self.appends(evs):
                self.rep.find("assembly:direction", f"{what}: connected instead of refused", self.at)
            elif self.other(evs):
                self.rep.skip(f"{what}: what happens")
            else:
                self.rep.find("assembly:silent", f"{what}: neither connected nor refused", self.at)
            return
        if k1 is not self.k["ProvidePortPrototype"]:
            (p1, m1), (p2, m2) = (p2, m2), (p1, m1)
        iref = lambda m, p: self.new("PortInCompositionTypeInstanceRef", component_ref=self.ref(m), port_ref=self.ref(p))
        self.check("assembly", what, evs, "AssemblySwConnector", {"provider": iref(m1, p1), "requester": iref(m2, p2)}, (m1, p1, m2, p2))

    def check(self, key, what, evs, cls, fields, named):
        got = self.one(key, what, evs)
        if got is None:
            return
        c = self.prog.cls(cls)
        names = list(c.lookup("__init__").pos)[1:]
        fields = dict(zip(names[1:], fields.values()))
        self.made(key, what, got[1], cls, {
            **fields, names[0]: lambda v: self.named_after(key + ":name", f"{what}: the name", v, [attr(x, "name") for x in named])})

    # ------------------------------------------------------------ component prototypes
    def prototype(self):
        m = self.method(self.comp, "create_component_prototype")
        if m is None:
            return
        flat, val = m
        t = param("component_type")
        for given in (True, False):
            kw = dict(present=[param("name")]) if given else dict(none=[param("name")])
            c = Case(self.prog, kinds={t: self.prog.cls("SwComponentType")}, **kw)
            evs = c.run(flat)
            what = "a component prototype" + (" with a name" if given else "")
            self.rep.count("connector cases")
            got = self.one("prototype", what, evs)
            if got is None:
                continue
            names = list(self.prog.cls("SwComponentPrototype").lookup("__init__").pos)[1:]
            self.made("prototype", what, got[1], "SwComponentPrototype",
                      {names[0]: param("name") if given else attr(t, "name"), names[1]: self.ref(t), "**": param("**kwargs")})
            self.same("prototype:returned", f"{what}: what is returned", c.reduce(val) if val is not None else NONE, got[1])


def run_connectors(s, rep):
    Connectors(s, rep).run()


# class, setting of the name prefix, instance reference (class, port look-up, element look-up)
EVENTS = {
    "create_background_event": ("BackgroundEvent", "background_event_prefix", None),
    "create_init_event": ("InitEvent", "init_event_prefix", None),
    "create_timing_event": ("TimingEvent", "timing_event_prefix", None),
    "create_data_receive_error_event": ("DataReceiveErrorEvent", "data_receive_error_event_prefix",
                                        ("RVariableInAtomicSwcInstanceRef", "find_r_port", "get_data_element_in_port")),
    "create_data_received_event": ("DataReceivedEvent", "data_receive_event_prefix",
                                   ("RVariableInAtomicSwcInstanceRef", "find_r_port", "get_data_element_in_port")),
    "create_operation_invoked_event": ("OperationInvokedEvent", "operation_invoked_event_prefix",
                                       ("POperationInAtomicSwcInstanceRef", "find_p_port", "get_operation_in_port")),
    "create_swc_mode_manager_error_event": ("SwcModeManagerErrorEvent", "swc_mode_manager_error_event_prefix",
                                            ("PModeGroupInAtomicSwcInstanceRef", "find_p_port", "get_mode_declaration_group_in_port")),
    "create_swc_mode_mode_switch_event": ("SwcModeSwitchEvent", "swc_mode_switch_event_prefix",
                                          ("RModeInAtomicSwcInstanceRef", "find_r_port", "get_mode_declaration_group_in_port")),
}


class Events(Wiring):
    def run(self):
        self.beh = self.prog.cls("SwcInternalBehavior")
        self.swc = attr(ME, "parent")
        self.runnable = mk("mcall", ME, "find_runnable", param("runnable_name"))
        self.bs = mk("mcall", ME, "get_valid_behavior_settings")
        for name, (cls, prefix, iref) in EVENTS.items():
            m = self.method(self.beh, name)
            if m is None:
                continue
            self.name, self.cls, self.prefix, self.iref = name, cls, attr(self.bs, prefix), iref
            self.flat, self.val = m
            self.fields = list(self.prog.cls(cls).lookup("__init__").pos)[1:]
            self.event()
        self.ma = MethodAnalysis(self.s.prog, self.s.ctors, LookupPolicy)
        self.lookups()

    def terms(self, flat):
        for g, e in flat:
            yield g
            for x in e.data:
                if isinstance(x, T):
                    yield x
                elif isinstance(x, tuple):
                    for k in x:
                        if isinstance(k, T):
                            yield k
                        elif isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], T):
                            yield k[1]

    def event(self):
        if self.iref is None:
            self.variants(None, None, "", {}, {}, [])
            return
        text = param(self.f.pos[2])
        if self.name == "create_swc_mode_mode_switch_event":
            self.switch(text)
            return
        if not self.iref[2] == "get_mode_declaration_group_in_port":
            s = mk("mcall", NONE, "split_ref_strict", text)
            if not any(x is s for t in self.terms(self.flat) for x in walk(t)):
                s2 = mk("mcall", NONE, "split_ref", text)
                if not any(x is s2 for t in self.terms(self.flat) for x in walk(t)):
                    self.rep.skip(f"{self.name}: how the text is taken apart")
                    return
                s = s2
            for n in (1, 2):
                port = mk("mcall", self.swc, self.iref[1], mk("item", s, C(0)))
                elem = mk("mcall", self.swc, self.iref[2], port, NONE if n == 1 else mk("item", s, C(1)))
                elem2 = mk("mcall", self.swc, self.iref[2], port) if n == 1 else elem
                self.variants(port, (elem, elem2), f" of a text of {n}", {"lens": {s: n}}, {}, [attr(port, "name"), attr(elem, "name")])
        else:
            port = mk("mcall", self.swc, self.iref[1], text)
            elem = mk("mcall", self.swc, self.iref[2], port)
            self.variants(port, (elem, elem), "", {}, {}, [attr(port, "name"), attr(elem, "name")])

    def guess(self, flat, extra):
        """every look-up of ports and elements succeeds"""
        ports = {}
        for t in self.terms(flat):
            for x in walk(t):
                if x.op == "mcall" and x.a[1] == "find_r_port":
                    ports[x] = self.k["RequirePortPrototype"]
                elif x.op == "mcall" and x.a[1] == "find_p_port":
                    ports[x] = self.k["ProvidePortPrototype"]
                elif x.op == "mcall" and x.a[1] in ("get_data_element_in_port", "get_operation_in_port",
                                                    "get_mode_declaration_group_in_port", "root_collection", "find"):
                    extra.append(x)
        return ports

    def variants(self, port, elem, suffix, known, kinds, named):
        rt = self.prog.cls("RunnableEntity")
        flat = Case(self.prog, **known).run(self.flat)
        for given in (True, False):
            present = []
            ks = {self.runnable: rt, **self.guess(flat, present), **kinds}
            none = []
            vals = dict(known.get("vals", {}))
            if given:
                ks[param("event_name")] = "str"
            else:
                none.append(param("event_name"))
                present.append(self.prefix)
            kw = {**known, "vals": vals}
            c = Case(self.prog, kinds=ks, none=none, present=present, **kw)
            c.present |= {x for t in self.terms(flat) for x in walk(t) if x.op == "item" and x.a[0] in c.lens}
            truthy = {mk("truthy", self.prefix): TRUE}
            c.fixed.update(truthy)
            evs = c.run(flat)
            what = f"{self.name}{suffix}" + (" with a name" if given else "")
            self.rep.count("event cases")
            got = self.one("event:" + self.name, what, evs)
            if got is not None:
                self.judge("event:" + self.name, what, c, got[1], port, elem, given, named)
        # what is not there is refused
        for missing, what in ((self.runnable, "the runnable"), (port, "the port"), (elem[0] if elem else None, "the element"),
                              (self.prefix, "the prefix")):
            if missing is None:
                continue
            present = []
            ks = {self.runnable: rt, **self.guess(flat, present), **kinds}
            gone = {missing} | ({elem[1]} if elem and missing is elem[0] else set())
            ks = {k: v for k, v in ks.items() if k not in gone}
            present = [x for x in present if x not in gone]
            none = list(gone)
            if missing is self.prefix:
                none.append(param("event_name"))
            else:
                ks[param("event_name")] = "str"
            evs = Case(self.prog, kinds=ks, none=none, present=present, **known).run(flat)
            self.rep.count("event cases")
            if self.refused(evs) or any(e.kind == "mcall" and e.data[1] == "get_value" or e.kind == "lib" and e.data[0].name == "get_value"
                                        for g, e in self.flat) and missing is self.prefix:
                self.rep.ok()
            elif any(e.kind == "raise" for g, e in evs) or not any(x is missing for t in self.terms(flat) for x in walk(t)):
                self.rep.skip(f"{self.name}: {what} is missing{suffix}")
            else:
                self.rep.find(f"event:{self.name}:missing", f"{self.name}: {what} is not there{suffix}, but nothing is refused", self.at)

    def judge(self, key, what, c, t, port, elem, given, named):
        fields = {"start_on_event": self.ref(self.runnable), "**": param("**kwargs"),
                  "name": lambda v: self.name_of(key, what, v, given, named)}
        other = [n for n in self.fields if n not in ("name", "start_on_event")]
        if self.iref is not None:
            init = list(self.prog.cls(self.iref[0]).lookup("__init__").pos)[1:]
            slot = other[-1]

            def iref(v, alt=elem):
                e = elem[0]
                if any(x is elem[1] for x in walk(v)):
                    e = elem[1]
                self.same(f"{key}:{slot}", f"{what}: {slot}", v, self.new(self.iref[0], **dict(zip(init, (self.ref(port), self.ref(e))))))
            fields[slot] = iref
            other = other[:-1]
        for n in other:
            if n in self.f.pos or n in self.f.kwonly:
                fields[n] = param(n)
        self.made(key, what, t, self.cls, fields)
        if self.val is not None:
            v = c.reduce(self.val)
            if v is t:
                self.rep.ok()
            elif clear(v):
                self.rep.find(key + ":returned", f"{what}: {show(v)[:120]} is returned instead of the event", self.at)
            else:
                self.rep.skip(f"{what}: what is returned")

    def name_of(self, key, what, v, given, named):
        uniq = mk("mcall", NONE, "make_unique_name_in_list", attr(ME, "events"))
        if v.op == "mcall" and v.a[1] == "make_unique_name_in_list" and len(v.a) == 4:
            self.same(key + ":unique", f"{what}: the list the name is unique in", v.a[2], uniq.a[2])
            v = v.a[3]
            if given:
                self.same(key + ":name", f"{what}: the name", v, param("event_name"))
            else:
                self.named_after(key + ":name", f"{what}: the name", v, [self.prefix, param("runnable_name"), *named])
        elif clear(v):
            self.rep.find(key + ":unique", f"{what}: the name {show(v)[:120]} is not made unique among the events", self.at)
        else:
            self.rep.skip(f"{what}: the name {show(v)[:120]}")

    # ------------------------------------------------------------ mode switch events
    def mode(self, text):
        s = mk("mcall", NONE, "split_ref_strict", text)
        port = mk("mcall", self.swc, "find_r_port", mk("item", s, C(0)))
        grp = mk("mcall", self.swc, "get_mode_declaration_group_in_port", port)
        decl = mk("mcall", mk("mcall", mk("mcall", self.swc, "root_collection"), "find", attr(grp, "type_ref")), "find", mk("item", s, C(1)))
        names = list(self.prog.cls("RModeInAtomicSwcInstanceRef").lookup("__init__").pos)[1:]
        return s, port, grp, decl, self.new("RModeInAtomicSwcInstanceRef", **dict(zip(names, map(self.ref, (port, grp, decl)))))

    def switch(self, text):
        key = "event:" + self.name
        rt = self.prog.cls("RunnableEntity")
        each = mk("elem", text)
        for kind in ("str", "tuple"):
            s, port, grp, decl, want = self.mode(text if kind == "str" else each)
            base = lambda: dict(lens={s: 2, **({text: 2} if kind == "tuple" else {})},
                                true=[mk("truthy", text if kind == "str" else each), mk("loop", text), mk("truthy", self.prefix)])
            for given in (True, False):
                present = []
                ks = {self.runnable: rt, **self.guess(self.flat, present), text: kind, each: "str"}
                none = [] if given else [param("event_name")]
                if given:
                    ks[param("event_name")] = "str"
                c = Case(self.prog, kinds=ks, none=none, present=[*present, self.prefix], **base())
                evs = c.run(self.flat)
                what = f"{self.name} of a {'text' if kind == 'str' else 'transition'}" + (" with a name" if given else "")
                self.rep.count("event cases")
                got = self.one(key, what, evs)
                if got is None:
                    continue
                fields = {"start_on_event": self.ref(self.runnable), "**": param("**kwargs"), "activation": param("activation"),
                          "name": lambda v: self.name_of(key, what, v, given, []),
                          "mode": (lambda v: self.same(f"{key}:mode", f"{what}: mode", v, want)) if kind == "str"
                          else (lambda v: self.pair(key, what, v, want, evs))}
                self.made(key, what, got[1], self.cls, fields)
            for missing, what in ((self.runnable, "the runnable"), (port, "the port"), (grp, "the mode group"), (decl, "the mode")):
                present = []
                ks = {self.runnable: rt, **self.guess(self.flat, present), text: kind, each: "str", param("event_name"): "str"}
                ks.pop(missing, None)
                evs = Case(self.prog, kinds=ks, none=[missing], present=[x for x in present if x is not missing], **base()).run(self.flat)
                self.rep.count("event cases")
                if self.refused(evs):
                    self.rep.ok()
                elif any(e.kind == "raise" for g, e in evs) or not any(x is missing for t in self.terms(self.flat) for x in walk(t)):
                    self.rep.skip(f"{self.name}: {what} is missing")
                else:
                    self.rep.find(f"{key}:missing", f"{self.name}: {what} is not there, but nothing is refused", self.at)

    def pair(self, key, what, v, want, evs):
        if v.op == "tup" and len(v.a) == 2:
            a, b = v.a
            second = b.op == "item" and isinstance(b.a[0], T) and b.a[0].op == "obj" and b.a[1] is C(1)
            if a is want and second:
                self.rep.ok()
                return
            first = a.op == "item" and isinstance(a.a[0], T) and a.a[0].op == "obj"
            if a is want and b is want or b is want and first:
                self.rep.find(f"{key}:mode", f"{what}: the two modes are not in the order given", self.at)
                return
            if a.op == "made" and second:
                self.same(f"{key}:mode", f"{what}: mode", a, want)
                return
        self.rep.skip(f"{what}: the modes are {show(v)[:160]}")

    # ------------------------------------------------------------ look-ups of ports and of their elements
    def lookups(self):
        base = self.prog.cls("SwComponentType")
        P, R, PR = self.k["ProvidePortPrototype"], self.k["RequirePortPrototype"], self.k["PRPortPrototype"]
        ports = attr(ME, "ports")
        each = mk("elem", ports)
        for name, good in (("find_r_port", (R, PR)), ("find_p_port", (P, PR))):
            m = self.method(base, name)
            if m is None:
                continue
            flat, val = m
            arg = param(self.f.pos[1])
            hit = mk("eq", attr(each, "name"), arg)
            for k in (P, R, PR):
                for eq in (True, False):
                    c = Case(self.prog, kinds={each: k}, true=[mk("loop", ports)] + ([hit] if eq else []), false=[] if eq else [hit])
                    v = self.alike(c, [val], attr(each, "name"), arg).reduce(val)
                    self.rep.count("event cases")
                    self.same(f"{name}", f"{name} of {'the' if eq else 'another'} name for a {k.name}", v, each if eq and k in good else NONE)
        iface = mk("mcall", mk("mcall", param("port"), "root_collection"), "find", attr(param("port"), "port_interface_ref"))
        for name, kind, coll in (("get_data_element_in_port", "SenderReceiverInterface", "data_elements"),
                                 ("get_operation_in_port", "ClientServerInterface", "operations"),
                                 ("get_mode_declaration_group_in_port", "ModeSwitchInterface", "mode_group")):
            m = self.method(base, name)
            if m is None:
                continue
            flat, val = m
            root = mk("mcall", param("port"), "root_collection")
            kinds = {iface: self.prog.cls(kind)}
            if len(self.f.pos) < 3:
                v = Case(self.prog, kinds=kinds, present=[root]).reduce(val)
                self.rep.count("event cases")
                self.same(name, name, v, attr(iface, coll))
                continue
            arg = param(self.f.pos[2])
            items = attr(iface, coll)
            each = mk("elem", items)
            hit = mk("eq", attr(each, "name"), arg)
            for what, kw, want in (("the only one", dict(none=[arg], lens={items: 1}), mk("item", items, C(0))),
                                   ("the one named", dict(kinds={**kinds, arg: "str"}, true=[mk("truthy", arg), mk("loop", items), hit]), each),
                                   ("one not there", dict(kinds={**kinds, arg: "str"}, true=[mk("truthy", arg), mk("loop", items)], false=[hit]), NONE)):
                c = Case(self.prog, **{"kinds": kinds, "present": [root], **kw})
                self.alike(c, [val, *[g for g, e in flat]], attr(each, "name"), arg)
                evs = c.run(flat)
                self.rep.count("event cases")
                if self.refused(evs):
                    if want is NONE:
                        self.rep.ok()
                    else:
                        self.rep.find(name + ":refused", f"{name}: {what} is refused", self.at)
                    continue
                self.same(name, f"{name}: {what}", c.reduce(val), want)
            evs = Case(self.prog, kinds=kinds, present=[root], none=[arg], lens={items: 2}).run(flat)
            self.rep.count("event cases")
            if self.refused(evs):
                self.rep.ok()
            elif any(e.kind == "raise" for g, e in evs):
                self.rep.skip(f"{name}: no name given for one of several")
            else:
                self.rep.find(name + ":several", f"{name}: one of several is taken when no name is given", self.at)


def run_events(s, rep):
    Events(s, rep).run()


# interface, port kinds, prefix texts -> where it is added, class, setting of the name prefix
SR, NV, CS, MS, PA = ("SenderReceiverInterface", "NvDataInterface", "ClientServerInterface", "ModeSwitchInterface", "ParameterInterface")
COLLS = {SR: "data_elements", NV: "data_elements", CS: "operations", PA: "parameters", MS: "mode_group"}
ACCESS = [
    ((SR, NV), "R", ("READ",), "data_read_access", "VariableAccess", "data_read_access_prefix"),
    ((SR, NV), "R", (None, "ARG", "ARGUMENT"), "data_receive_point_by_argument", "VariableAccess", "data_receive_point_prefix"),
    ((SR, NV), "R", ("VAL", "VALUE"), "data_receive_point_by_value", "VariableAccess", "data_receive_point_prefix"),
    ((SR, NV), "P", ("WRITE",), "data_write_access", "VariableAccess", "data_write_access_prefix"),
    ((SR, NV), "P", (None, "SEND"), "data_send_point", "VariableAccess", "data_send_point_prefix"),
    ((PA,), "R", (None,), "parameter_access", "ParameterAccess", "parameter_access_prefix"),
    ((CS,), "R", (None, "SYNC"), "server_call_point", "SynchronousServerCallPoint", "server_call_point_prefix"),
    ((CS,), "X", (None, "SYNC"), "server_call_point", "SynchronousServerCallPoint", "server_call_point_prefix"),
    ((CS,), "R", ("ASYNC",), "server_call_point", "AsynchronousServerCallPoint", "server_call_point_prefix"),
    ((MS,), "R", (None,), "mode_access_point", "ModeAccessPoint", None),
    ((MS,), "P", (None,), "mode_access_point", "ModeAccessPoint", None),
    ((MS,), "R", ("ACCESS",), "mode_access_point", "ModeAccessPoint", "mode_access_point_prefix"),
    ((MS,), "P", ("ACCESS",), "mode_access_point", "ModeAccessPoint", "mode_access_point_prefix"),
    ((MS,), "P", ("SWITCH",), "mode_switch_point", "ModeSwitchPoint", "mode_switch_point_prefix"),
]
REFUSED = [(CS, "P", None), (CS, "P", "ASYNC"), (CS, "P", "SYNC"), (MS, "R", "SWITCH")]
FORMS = ("text", "text and nothing", "text and options", "text and options with a name", "list of texts")


class AccessPoints(Wiring):
    def run(self):
        self.run_cls = self.prog.cls("RunnableEntity")
        m = self.method(self.run_cls, "create_port_access")
        if m is not None and len(self.f.pos) > 1:
            self.E = param(self.f.pos[1])
            self.flat = m[0]
            self.swc = attr(attr(ME, "parent"), "parent")
            self.root = mk("mcall", self.swc, "root_collection")
            self.bs = mk("mcall", self.root, "get_valid_behavior_settings")
            self.ports = {"P": self.k["ProvidePortPrototype"], "R": self.k["RequirePortPrototype"], "X": self.k["PRPortPrototype"]}
            self.cases()
        self.unique()

    # ------------------------------------------------------------ the text of an entry
    def form(self, form):
        """(text, arguments, facts) of an entry"""
        E = self.E
        text, args, kw = E, None, {"kinds": {E: "str"}}
        if form == "list of texts":
            text = mk("elem", E)
            kw = {"kinds": {E: "list", text: "str"}, "true": [mk("loop", E)]}
        elif form != "text":
            text, args = mk("item", E, C(0)), mk("item", E, C(1))
            kw = {"kinds": {E: "tuple", text: "str"}}
            if form == "text and nothing":
                kw["none"] = [args]
            else:
                kw["kinds"][args] = "dict"
                hits = {x for g, e in self.flat for x in walk(g) if x.op == "in" and x.a[0] is C("name")}
                kw["true" if form.endswith("name") else "false"] = list(hits)
        return text, args, kw

    def cases(self):
        for form in FORMS:
            text, self.args, kw = self.form(form)
            self.formname = form
            part = mk("mcall", text, "partition", C(":"))
            self.kw = kw
            flat = Case(self.prog, **kw).run(self.flat)
            if not any(x is part for t in Events.terms(self, flat) for x in walk(t)):
                each = mk("mcall", mk("elem", self.E), "partition", C(":"))
                if text.op == "item" and any(x is each for t in Events.terms(self, flat) for x in walk(t)):
                    self.rep.find("access:form", f"create_port_access: a {form} is taken for a list of texts", self.at)
                else:
                    self.rep.skip(f"create_port_access: how a {form} is taken apart")
                continue
            pre = mk("item", part, C(0))
            for prefix in (None, "READ", "WRITE", "SEND", "ARG", "ARGUMENT", "VAL", "VALUE", "SYNC", "ASYNC", "ACCESS", "SWITCH", "OTHER", ""):
                if prefix is None:
                    vals, rest = {mk("item", part, C(1)): ""}, pre
                else:
                    vals = {mk("item", part, C(1)): ":", pre: prefix, **{mk("mcall", pre, n): prefix for n in ("upper", "strip", "lstrip", "rstrip")},
                            mk("mcall", mk("mcall", pre, "strip"), "upper"): prefix, mk("mcall", mk("mcall", pre, "upper"), "strip"): prefix}
                    rest = mk("item", part, C(2))
                f = Case(self.prog, **{**kw, "vals": vals}).run(flat)
                self.text = form if prefix is None else f"{form} with {prefix or 'an empty prefix'}"
                if prefix in ("OTHER", ""):
                    self.rep.count("access cases")
                    if self.refused(f):
                        self.rep.ok()
                    elif not self.appends(f) or not any(e.kind == "raise" for g, e in f):
                        self.rep.find("access:prefix", f"create_port_access: a text with an unknown prefix is not refused", self.at)
                    elif form == "text" and (w := self.unknown_prefix(f, vals, text if prefix is None else mk("item", part, C(2)))):
                        self.rep.find("access:prefix", f"create_port_access: a text with an unknown prefix is not refused for {w}", self.at)
                    else:
                        self.rep.skip("create_port_access: an unknown prefix")
                    continue
                refs = {x for t in Events.terms(self, f) for x in walk(t) if x.op == "mcall" and x.a[1] == "partition"
                        and x.a[2] is C("/") and any(y is rest for y in walk(x.a[0]))}
                if len(refs) != 1:
                    self.rep.skip(f"create_port_access: how a {self.text} names the port")
                    continue
                self.ref_text = refs.pop()
                if self.ref_text.a[0] is rest and prefix is not None:
                    self.rep.find("access:blank", "create_port_access: a blank after the prefix is taken as a part of the name", self.at)
                self.entries(f, vals, prefix)

    def entries(self, flat, vals, prefix):
        self.port = mk("mcall", self.swc, "find", mk("item", self.ref_text, C(0)))
        self.ifc = mk("mcall", self.root, "get_port_interface", attr(self.port, "port_interface_ref"))
        known = {x for t in Events.terms(self, flat) for x in walk(t)}
        if self.port not in known or self.ifc not in known:
            self.rep.skip(f"create_port_access: how the port of a {self.text} is found")
            return
        self.base = {"vals": vals, "present": [self.root]}
        evs = Case(self.prog, **self.merge(none=[self.port])).run(flat)
        self.judge_refusal(evs, "access:port", "a port that does not exist")
        whole = self.formname == "text"
        for ifcs, direction, prefixes, where, cls, setting in ACCESS:
            if prefix not in prefixes:
                continue
            for ifc in ifcs[:None if whole else 1]:
                self.access(flat, ifc, direction, where, cls, setting)
        if whole:
            for ifc, direction, p in REFUSED:
                if p == prefix:
                    evs = Case(self.prog, **self.facts(ifc, direction, "")[0]).run(flat)
                    self.judge_refusal(evs, f"access:{ifc}:{direction}", f"{self.words(ifc, direction)}")

    def merge(self, **kw):
        res = {k: dict(v) if isinstance(v, dict) else list(v) for k, v in self.kw.items()}
        for d in (self.base, kw):
            for k, v in d.items():
                res[k] = {**res.get(k, {}), **v} if isinstance(v, dict) else [*res.get(k, []), *v]
        return res

    def words(self, ifc, direction):
        return {"P": "a provided", "R": "a required", "X": "a provided and required"}[direction] + " port of a " + ifc

    def facts(self, ifc, direction, name):
        """(facts, element) for an element that is named, the only one, or not there"""
        coll = attr(self.ifc, COLLS[ifc])
        text = mk("item", self.ref_text, C(2))
        ks = {self.port: self.ports[direction], self.ifc: self.prog.cls(ifc)}
        kw = {"kinds": ks, "lens": {text: 0 if name in ("", "several") else 5}}
        if ifc == MS:
            kw["present"] = [coll]
            hit = mk("eq", attr(coll, "name"), text)
            if name:
                kw["true" if name == "named" else "false"] = [hit]
            return self.merge(**kw), coll
        each = mk("elem", coll)
        hit = mk("eq", attr(each, "name"), text)
        if name == "named":
            kw["true"] = [hit, mk("loop", coll)]
            kw["present"] = [each]
            return self.merge(**kw), each
        if name == "missing":
            kw["false"] = [hit]
            kw["true"] = [mk("loop", coll)]
            kw["present"] = [each]
            return self.merge(**kw), None
        kw["lens"][coll] = 1 if name == "" else 2
        only = mk("item", coll, C(0))
        kw["present"] = [only]
        return self.merge(**kw), only

    def judge_refusal(self, evs, key, what):
        self.rep.count("access cases")
        if self.refused(evs):
            self.rep.ok()
        elif any(e.kind == "raise" for g, e in evs):
            w = self.witness(evs)
            if w:
                self.rep.find(key + ":refused", f"create_port_access of a {self.text}: {what} is not refused when {w}", self.at)
            else:
                self.rep.skip(f"create_port_access: {what}, {self.text}")
        else:
            self.rep.find(key + ":refused", f"create_port_access of a {self.text}: {what} is not refused", self.at)

    def unknown_prefix(self, flat, vals, rest):
        """a kind of port and interface for which a text with this prefix is accepted"""
        refs = {x for t in Events.terms(self, flat) for x in walk(t) if x.op == "mcall" and x.a[1] == "partition"
                and x.a[2] is C("/") and any(y is rest for y in walk(x.a[0]))}
        if len(refs) != 1:
            return None
        self.ref_text = refs.pop()
        self.port = mk("mcall", self.swc, "find", mk("item", self.ref_text, C(0)))
        self.ifc = mk("mcall", self.root, "get_port_interface", attr(self.port, "port_interface_ref"))
        self.base = {"vals": vals, "present": [self.root, self.port]}
        for ifcs, direction, prefixes, where, cls, setting in ACCESS:
            for ifc in ifcs:
                evs = Case(self.prog, **self.facts(ifc, direction, "")[0]).run(flat)
                if self.appends(evs) and not any(e.kind == "raise" for g, e in evs) and any(a[0] is TRUE for a in self.appends(evs)):
                    return self.words(ifc, direction)
        return None

    def witness(self, evs):
        """equalities, of which nothing is known, that make the call succeed"""
        atoms = set()
        for g in [g for g, e in evs if e.kind == "raise"] + [a[0] for a in self.appends(evs)]:
            todo = [g]
            while todo:
                x = todo.pop()
                if x.op in ("and", "or", "not"):
                    todo += x.a
                elif x is not TRUE and x is not FALSE:
                    atoms.add(x)
        if not 0 < len(atoms) < 5 or not all(x.op == "eq" and clear(x) for x in atoms):
            return None
        atoms = sorted(atoms, key=str)
        for n in range(2 ** len(atoms)):
            yes = [a for i, a in enumerate(atoms) if n >> i & 1]
            now = Case(self.prog, true=yes, false=[a for a in atoms if a not in yes]).run(evs)
            if not any(e.kind == "raise" for g, e in now) and any(a[0] is TRUE for a in self.appends(now)):
                return " and ".join(str(a) if a in yes else f"not {a}" for a in atoms)
        return None

    # ------------------------------------------------------------ one access point
    def access(self, flat, ifc, direction, where, cls, setting):
        key = f"access:{where}:{cls}"
        for name in ("", "named", "missing", "several"):
            if name in ("missing", "several") and self.formname != "text" or ifc == MS and name == "several":
                continue
            facts, elem = self.facts(ifc, direction, name)
            c = Case(self.prog, **facts)
            what = f"create_port_access of a {self.text}, {self.words(ifc, direction)}" + \
                {"": "", "named": ", the element named", "missing": ", an element that does not exist", "several": ""}[name]
            evs = c.run(flat)
            if name in ("named", "missing"):
                e = elem if elem is not None else mk("elem", attr(self.ifc, COLLS[ifc]))
                evs = self.alike(c, [g for g, _ in evs], attr(e, "name"), mk("item", self.ref_text, C(2))).run(evs)
            if name == "missing":
                c.none |= {x for g, e in evs for x in walk(g) if x.op == "loopvar" and self.starts_none(x)}
                evs = c.run(evs)
                self.judge_refusal(evs, key, f"{self.words(ifc, direction)}, an element that does not exist")
                continue
            if name == "several":
                self.judge_refusal(evs, key, f"{self.words(ifc, direction)}, none of several elements named")
                continue
            c.present |= {x for t in Events.terms(self, evs) for x in walk(t) if self.given(x)}
            evs = c.run(evs)
            self.rep.count("access cases")
            self.untouched(what, evs)
            got = self.one(key, what, evs)
            if got is None:
                continue
            if got[0] != where:
                self.rep.find(key + ":where", f"{what}: added to {got[0]} instead of {where}", self.at)
                continue
            self.judge(key, what, got[1], ifc, direction, elem, cls, setting)

    def starts_none(self, lv):
        """nothing is found before the loop"""
        vs = [v for k, v in self.loop_init.items() if k.a[1] == lv.a[1]]
        return bool(vs) and all(v == {NONE} for v in vs)

    def given(self, x):
        """the name found in the options"""
        return x.op in ("item", "mcall") and x.a[-1] is C("name") and isinstance(x.a[0], T) and (
            x.a[0].op == "obj" or x.a[0] is self.args)

    def untouched(self, what, evs):
        for g, e in evs:
            if e.kind in ("setitem", "delitem") and isinstance(e.data[0], T) and e.data[0] is self.args or \
                    e.kind in ("mcall", "dictop") and e.data[0] is self.args and e.data[1] in ("pop", "update", "setdefault", "clear", "popitem"):
                self.rep.find("access:options", f"{what}: the caller's options are changed", self.at)
                return
        self.rep.ok()

    def judge(self, key, what, t, ifc, direction, elem, cls, setting):
        port, elem = self.ref(self.port), self.ref(elem)
        fields = {"name": lambda v: self.name_of(key, what, v, setting, elem.a[0])}
        order = lambda c: list(self.prog.cls(c).lookup("__init__").pos)[1:]
        make = lambda c, *v: self.new(c, **dict(zip(order(c), v)))
        if self.args is not None and self.args in self.kw["kinds"]:
            fields["**"] = self.args
        if ifc in (SR, NV):
            fields["accessed_variable"] = self.new("AutosarVariableRef", ar_variable_iref=self.new(
                "VariableInAtomicSWCTypeInstanceRef", port_prototype_ref=port, target_data_prototype_ref=elem))
        elif ifc == PA:
            fields["accessed_parameter"] = self.new("AutosarParameterRef", autosar_parameter=self.new(
                "ParameterInAtomicSwcTypeInstanceRef", port_prototype=port, target_data_prototype=elem))
        elif ifc == CS:
            fields["operation"] = make("ROperationInAtomicSwcInstanceRef", port, elem)
        else:
            iref = make(("R" if direction == "R" else "P") + "ModeGroupInAtomicSwcInstanceRef", port, elem)
            if cls == "ModeSwitchPoint":
                fields["mode_group"] = iref
            else:
                extra = {k: fields.pop(k) for k in ("**",) if k in fields}
                name = fields.pop("name")
                fields["mode_group"] = iref
                if setting is not None:
                    fields["ident"] = lambda v: self.made(key + ":ident", what + ": ident", v, "ModeAccessPointIdent", {"name": name, **extra})
        self.made(key, what, t, cls, fields)

    def name_of(self, key, what, v, setting, elem):
        if self.formname == "text and options with a name":
            if self.given(v):
                self.rep.ok()
            elif clear(v):
                self.rep.find(key + ":name", f"{what}: the name is {show(v)[:120]} instead of the one given", self.at)
            else:
                self.rep.skip(f"{what}: the name {show(v)[:120]}")
            return
        self.named_after(key + ":name", f"{what}: the name", v, [attr(self.bs, setting), attr(self.port, "name"), attr(elem, "name")])

    # ------------------------------------------------------------ names are unique among those of one kind
    def unique(self):
        refable = self.prog.cls("Referrable")
        for name, f in sorted(self.run_cls.methods.items()):
            if not name.startswith("append_") or len(f.pos) < 2:
                continue
            m = self.method(self.run_cls, name)
            if m is None:
                continue
            flat, val = m
            p = param(f.pos[1])
            kinds = {k for g, e in flat for x in walk(g) if x.op == "inst" and x.a[0] is p for k in x.a[1:]}
            cs = [k.a[0] if isinstance(k, T) else k for k in kinds]
            cs = [c for c in cs if isinstance(c, ClassInfo)]
            if not cs or not all(refable in c.mro for c in cs):
                continue
            for c in cs:
                self.rep.count("access cases")
                evs = Case(self.prog, kinds={p: c}, present=[attr(p, "name")], true=[mk("truthy", attr(p, "name"))]).run(flat)
                adds = [e.data[0] for g, e in evs if e.kind == "mcall" and e.data[1] == "append" and g is TRUE and e.data[2] and e.data[2][0] is p]
                if len(adds) != 1:
                    self.rep.skip(f"{name}: where the element is added")
                    continue
                want = mk("mcall", NONE, "make_unique_name_in_list", adds[0], attr(p, "name"))
                sets = [(g, e.data[2]) for g, e in evs if e.kind == "setattr" and e.data[0] is p and e.data[1] == "name"]
                key = f"unique:{name}"
                if len(sets) == 1 and sets[0][0] is TRUE and sets[0][1] is want:
                    self.rep.ok()
                elif not sets and not any(e.kind == "lib" and e.data[0].name not in ("make_unique_name_in_list",) for g, e in evs) and \
                        not self.other_calls(evs, adds[0]):
                    self.rep.find(key, f"{name}: the name of the new element is not made unique", self.at)
                elif sets and all(clear(v) for g, v in sets) and all(g is TRUE or clear(g) for g, v in sets):
                    self.rep.find(key, f"{name}: the name becomes {show(sets[0][1])[:160]}" +
                                  ("" if sets[0][0] is TRUE else f" only when {show(sets[0][0])[:120]}"), self.at)
                else:
                    self.rep.skip(f"{name}: the name of the new element")

    @staticmethod
    def other_calls(evs, coll):
        return any(e.kind in ("call", "xcall") for g, e in evs) or \
            any(e.kind == "mcall" and e.data[0] is ME for g, e in evs)


def run_access(s, rep):
    AccessPoints(s, rep).run()
