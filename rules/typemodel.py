"""
P18: what becomes of an implementation data type.

The method that creates model types is followed symbolically; its events are then looked at per
category of the XML type (a case split on the conditions the code itself tests). The generated
definition is compared with the model type in the same way.
"""
from sa.terms import T, mk, C, NONE, TRUE, FALSE, attr, conj, disj, neg, walk, subst, show, is_const, cval
from sa.methods import MethodAnalysis, ME
from sa.ctor import leaves, param
from sa.interp import IfEv, LoopEv
from rules.documents import Flows, Unclear, parts, strip, unclear
from rules.typegen import Gen, GenPolicy, as_class, less, loops_of

MOD = "autosar.model.element"
SORTS = {
    "VALUE": ("ScalarType", {"base_type": ("base_type_ref",)}),
    "TYPE_REFERENCE": ("RefType", {"impl_type": ("impl_data_type_ref",)}),
    "ARRAY": ("ArrayType", {}),
    "STRUCTURE": ("RecordType", {}),
    "DATA_REFERENCE": ("PointerType", {}),
}
ENUMS = (("impl_policy", "array_impl_policy", "ArrayImplPolicy"),
         ("size_handling", "array_size_handling", "ArraySizeHandling"),
         ("size_semantics", "array_size_semantics", "ArraySizeSemantics"))


class Case:
    """the events of a method run under a substitution of conditions"""

    def __init__(self, run, assume):
        self.run = run
        self.assume = assume
        self.memo = {}
        self.events = []
        for g, e in run.flat():
            g2 = self.cond(g)
            if g2 is not FALSE:
                self.events.append((g2, e))
        self.base = TRUE

    def cond(self, g):
        return self.assume(g)

    def value(self, obj, name):
        """what attribute `name` of a local object holds at the end"""
        v = None
        for g, e in self.events:
            if e.kind != "setattr" or e.data[1] != name:
                continue
            for h, o in leaves(self.assume(e.data[0]), g):
                if o is obj and h is not FALSE:
                    new = self.assume(e.data[2])
                    v = new if v is None else mk("phi", h, new, v)
        return v

    def made(self, obj):
        """the condition under which a local object is made"""
        for g, e in self.events:
            if e.kind == "setattr" and self.assume(e.data[0]) is obj:
                return g
        return None


def case(prog, x, cls, category, extra=()):
    """substitution for: x is a cls of that category, not seen before"""
    extra = dict(extra)
    memo = {}

    def go(t):
        if t in memo:
            return memo[t]
        m = dict(extra)
        for y in walk(t):
            if y.op == "inst" and y.a[0] is x and y.a[1].op == "cls":
                m[y] = C(cls.is_sub(y.a[1].a[0]))
            elif y.op == "inst" and y.a[0] is attr(x, "category") and category is not None:
                m[y] = TRUE
            elif y.op == "eq" and any(z is attr(x, "category") for z in y.a):
                o = [z for z in y.a if z is not attr(x, "category")]
                if o and is_const(o[0]):
                    m[y] = C(cval(o[0]) == category)
            elif y.op == "in" and y.a[1] is attr(ME, "data_types"):
                m[y] = extra.get("seen", FALSE)
            elif y.op in ("nn", "truthy") and lookup(y.a[0]) is not None:
                m[y] = extra.get("seen", FALSE)
            elif y.op in ("nn", "truthy") and y.a[0] is attr(x, "category") and category is not None:
                m[y] = TRUE
        m.pop("seen", None)
        r = memo[t] = subst(t, m) if m else t
        return r
    return go


def lookup(t):
    """the key when t is an entry of the table of types"""
    if t.op == "item" and t.a[0] is attr(ME, "data_types"):
        return t.a[1]
    if t.op == "mcall" and t.a[0] is attr(ME, "data_types") and t.a[1] == "get" and len(t.a) >= 3:
        return t.a[2]
    return None


def iterations(evs, inner=None, acc=None):
    """the innermost loop each event belongs to"""
    acc = {} if acc is None else acc
    for e in evs:
        if isinstance(e, IfEv):
            iterations(e.a, inner, acc)
            iterations(e.b, inner, acc)
        elif isinstance(e, LoopEv):
            iterations(e.body, e, acc)
        else:
            acc[id(e)] = inner
    return acc


class Model:
    def __init__(self, s, rep):
        self.s = s
        self.rep = rep
        self.prog = s.prog
        self.ma = MethodAnalysis(s.prog, s.ctors, GenPolicy)
        self.cls = s.prog.cls("ImplementationModel")
        self.at = "ImplementationModel.create_from_element"

    def run(self):
        f = self.cls.lookup("create_from_element")
        r = self.ma.run(self.cls, f)
        if r.failed or r.value is None:
            self.rep.skip(f"{self.at}: {r.failed or 'no result'}")
            return
        self.r = r
        ps = [p for p in f.pos if p != "self"]
        self.E = param(ps[0])
        self.src = param(ps[1]) if len(ps) > 1 else None
        self.key = mk("call", "str", mk("mcall", self.E, "ref"))
        idt = self.prog.cls("ImplementationDataType")
        sbt = self.prog.cls("SwBaseType")
        other = self.prog.cls("Package")
        self.kind("SwBaseType", sbt, None, "BaseType", {})
        for cat, (kind, links) in SORTS.items():
            self.kind(cat, idt, cat, kind, links)
        cat = attr(self.E, "category")
        known = {cval(z) for g, e in self.r.flat() for y in walk(g) if y.op == "eq" and any(z is cat for z in y.a) for z in y.a if is_const(z)}
        for k in sorted(x for x in known if isinstance(x, str) and x not in SORTS):
            if k == "UNION" and any(e.kind == "new" and e.data[0].name == "UnionType" for _, e in self.r.flat()):
                self.kind(k, idt, k, "UnionType", {})
            else:
                self.refuse(f"category {k}", case(self.prog, self.E, idt, k))
        self.refuse("another category", case(self.prog, self.E, idt, "\0other"))
        self.refuse("another element", case(self.prog, self.E, other, None))
        self.sources()
        self.repeat(idt)

    # ------------------------------------------------------------ one category
    def kind(self, label, cls, category, kind, links):
        rep = self.rep
        go = case(self.prog, self.E, cls, category)
        c = Case(self.r, go)
        rep.count("categories")
        want = self.prog.cls(kind, MOD)
        fail = disj(*[g for g, e in c.events if e.kind == "raise" and not loops_of(g)])
        if fail is TRUE:
            rep.find(f"{label}:refused", f"{label} is always refused", self.at)
            return
        val = go(self.r.value)
        outs = [(g, v) for g, v in leaves(val) if g is not FALSE and conj(g, neg(fail)) is not FALSE]
        objs = []
        for g, v in outs:
            o = self.r.heap.get(v) if v.op == "obj" else None
            k = o.cls if o is not None else None
            if k is None:
                k = next((e.data[0] for g2, e in c.events if e.kind == "new" and v.op == "obj" and False), None)
            if k is None or v.op != "obj":
                if v is NONE:
                    rep.find(f"{label}:none", f"{label} gives no type at all" + self.when(g), self.at)
                elif lookup(v) is not None:
                    self.stored_only(label, c, v)
                    return
                else:
                    rep.skip(f"{self.at}: {label} gives {show(v)[:100]}")
                return
            if k is not want:
                rep.find(f"{label}:kind", f"{label} becomes a {k.name} instead of a {want.name}" + self.when(g), self.at)
                return
            objs.append((g, v))
        if not objs:
            rep.skip(f"{self.at}: {label} gives no type")
            return
        if len(objs) != 1:
            rep.skip(f"{self.at}: {label} gives {len(objs)} different objects")
            return
        rep.ok()
        obj = objs[0][1]
        self.registered(label, c, obj, fail)
        self.basics(label, c, obj, want, links, fail)
        if category == "DATA_REFERENCE":
            self.pointer(label, c, obj)
        if category in ("ARRAY", "STRUCTURE"):
            self.parts(label, c, obj, category == "ARRAY")

    @staticmethod
    def when(g):
        return "" if g is TRUE else f" when {show(g)[:160]}"

    def stored_only(self, label, c, v):
        self.rep.skip(f"{self.at}: {label} is returned from the table of types")

    def registered(self, label, c, obj, fail):
        got = FALSE
        odd = None
        for g, e in c.events:
            if e.kind == "setitem" and e.data[0] is attr(ME, "data_types"):
                for h, v in leaves(c.assume(e.data[2]), g):
                    if v is obj and h is not FALSE:
                        if c.assume(e.data[1]) in (self.key, attr(obj, "ref")):
                            got = disj(got, h)
                        else:
                            odd = c.assume(e.data[1])
            elif e.kind == "mcall" and e.data[0] is attr(ME, "data_types") and e.data[1] in ("update", "setdefault"):
                odd = NONE
        gap = conj(neg(got), neg(fail))
        if gap is FALSE:
            self.rep.ok()
        elif odd is NONE or unclear(gap) or odd is not None and unclear(odd):
            self.rep.skip(f"{self.at}: how {label} is stored")
        elif odd is not None:
            self.rep.find(f"{label}:key", f"the type made for {label} is stored under {show(odd)[:100]}", self.at)
        else:
            self.rep.find(f"{label}:stored", f"the type made for {label} is not stored" + self.when(gap), self.at)

    # ------------------------------------------------------------ attributes
    def expect(self, key, what, c, obj, name, ok, where=TRUE):
        """every value of the attribute satisfies ok(guard, value)"""
        v = c.value(obj, name)
        if v is None:
            o = self.r.heap.get(obj)
            v = o.entries.get(name) if o is not None else None
            v = c.assume(v) if isinstance(v, T) else None
        if v is None:
            self.rep.find(key, f"{what}: attribute {name} is never set", self.at)
            return
        for g, x in leaves(v, where):
            if g is FALSE:
                continue
            r = ok(g, x)
            if r is True:
                self.rep.ok()
            elif r is None or unclear(x) or unclear(g):
                self.rep.skip(f"{what}: {name} is {show(x)[:100]}")
            else:
                self.rep.find(key, f"{what}: {name} is {show(x)[:120]}" + self.when(g), self.at)
                return

    def basics(self, label, c, obj, want, links, fail):
        E = self.E
        self.expect(f"{label}:ref", label, c, obj, "ref", lambda g, x: x is self.key, neg(fail))
        self.expect(f"{label}:name", label, c, obj, "name", lambda g, x: x is attr(E, "name"), neg(fail))
        if want.name == "BaseType":
            self.expect(f"{label}:native", label, c, obj, "native_declaration", lambda g, x: x is attr(E, "native_declaration"), neg(fail))
            return
        sp = attr(E, "symbol_props")
        sy = attr(sp, "symbol")
        has = conj(mk("nn", sp), mk("nn", sy))
        full = disj(neg(mk("nn", sy)), mk("truthy", sy))

        def symbol(g, x):
            if x is sy:
                return True if conj(g, neg(has)) is FALSE else None
            if x is attr(E, "name"):
                return conj(g, has, full) is FALSE
            return False
        self.expect(f"{label}:symbol", label, c, obj, "symbol_name", symbol, neg(fail))
        self.expect(f"{label}:emitter", label, c, obj, "type_emitter", lambda g, x: x is attr(E, "type_emitter"), neg(fail))
        for a, (ref,) in links.items():
            self.expect(f"{label}:{a}", label, c, obj, a, self.target(E, ref), neg(fail))

    def target(self, base, ref, props="sw_data_def_props"):
        """the model type of the first reference `ref` of an element"""
        def ok(g, x):
            if lookup(x) is not None:
                return None
            if x.op != "mcall" or x.a[1] != "create_from_element" or len(x.a) < 3:
                return None if x.op in ("mcall", "call") else False
            y = x.a[2]
            if y.op != "mcall" or y.a[1] != "find" or len(y.a) != 3:
                return None
            z = y.a[2]
            while z.op in ("call", "fstr") and len(z.a) == (2 if z.op == "call" else 1) and isinstance(z.a[-1], T):
                z = z.a[-1]
            if z.op == "attr" and z.a[1] == "value":
                z = z.a[0]
            if z.op != "attr" or z.a[1] != ref:
                return False
            p = z.a[0]
            if p.op == "item":
                if p.a[1] is not C(0):
                    return False if is_const(p.a[1]) else None
                p = p.a[0]
            elif p.op == "elem":
                return None
            if p is not attr(base, props):
                return False if p.op == "attr" and p.a[1] == props else None
            flag = x.a[3] if len(x.a) > 3 else None
            if flag is not None and flag.op == "kw":
                flag = flag.a[1]
            if flag is None or flag is TRUE:
                return False
            return True if flag is FALSE else None
        return ok

    def pointer(self, label, c, obj):
        pp = attr(mk("item", attr(self.E, "sw_data_def_props"), C(0)), "ptr_target_props")
        cat = attr(pp, "target_category")
        for k, ref in (("VALUE", "base_type_ref"), ("TYPE_REFERENCE", "impl_data_type_ref")):
            d = Case(self.r, self.also(c, cat, k))
            self.expect(f"{label}:{k}", f"{label} of a {k}", d, obj, "target_type", self.target(pp, ref))
        d = Case(self.r, self.also(c, cat, "\0other"))
        no = disj(*[g for g, e in d.events if e.kind == "raise"])
        self.must_fail(f"{label}:target", f"{label} of another category", no)

    def also(self, c, cat, k):
        def go(t):
            t = c.assume(t)
            m = {}
            for y in walk(t):
                if y.op == "eq" and any(z is cat for z in y.a):
                    o = [z for z in y.a if z is not cat]
                    if o and is_const(o[0]):
                        m[y] = C(cval(o[0]) == k)
                elif y.op in ("nn", "truthy") and y.a[0] is cat:
                    m[y] = TRUE
            return subst(t, m) if m else t
        return go

    def must_fail(self, key, what, no):
        if no is TRUE:
            self.rep.ok()
        elif unclear(no):
            self.rep.skip(f"{self.at}: {what}")
        else:
            self.rep.find(key, f"{what} is not refused" + ("" if no is FALSE else f" unless {show(no)[:120]}"), self.at)

    def refuse(self, what, go):
        c = Case(self.r, go)
        no = disj(*[g for g, e in c.events if e.kind == "raise"])
        self.must_fail(what, what, no)

    # ------------------------------------------------------------ dimensions and members
    def parts(self, label, c, obj, array):
        rep = self.rep
        S = attr(self.E, "sub_elements")
        L = c.value(obj, "sub_elements")
        if L is None or L.op != "obj":
            rep.skip(f"{self.at}: the parts of {label}")
            return
        try:
            segs = self.sequence(c, L, S, label)
        except Unclear as ex:
            rep.skip(f"{self.at}: the parts of {label}: {ex}")
            return
        if segs is None:
            return
        if not segs:
            rep.find(f"{label}:parts", f"the parts of {label} are dropped", self.at)
            return
        spans = []
        for src, back, guard, item in segs:
            sp = self.span(src, S)
            if sp is None:
                rep.skip(f"{self.at}: the parts of {label} come from {show(src)[:100]}")
                return
            x = src if src.op == "item" else mk("elem", src)
            if guard is not TRUE and all(self.also(c, attr(x, "category"), k)(guard) is TRUE for k in ("VALUE", "TYPE_REFERENCE")):
                guard = TRUE        # other categories have to be refused, see part()
            if guard is not TRUE:
                if unclear(guard) or guard.op == "or":
                    rep.skip(f"{self.at}: a part of {label} is kept when {show(guard)[:120]}")
                else:
                    rep.find(f"{label}:parts", f"a part of {label} is kept only when {show(guard)[:160]}", self.at)
                return
            spans.append((sp, back))
        good = spans[0][0][0] == 0 and spans[-1][0][1] is None and all(a[0][1] == b[0][0] for a, b in zip(spans, spans[1:]))
        if not good:
            rep.find(f"{label}:parts", f"{label} gets the parts {['%s:%s' % s for s, _ in spans]} of the element", self.at)
            return
        if any(b and s != (-1, None) for s, b in spans):
            rep.find(f"{label}:order", f"the parts of {label} are not in their order", self.at)
            return
        rep.ok()
        rep.count("parts", len(segs))
        for i, (src, back, guard, item) in enumerate(segs):
            x = src if src.op == "item" else mk("elem", src)
            last = i == len(segs) - 1
            self.part(label, c, x, item, array, last, whole=len(segs) == 1)

    def span(self, src, S):
        """(first, end) of the part of S a term stands for; end None: to the end"""
        if src is S:
            return (0, None)
        if src.op == "item" and src.a[0] is S and is_const(src.a[1]) and isinstance(cval(src.a[1]), int):
            i = cval(src.a[1])
            return (i, None if i == -1 else i + 1)
        if src.op == "slice" and src.a[0] is S and all(x is NONE or is_const(x) and isinstance(cval(x), int) for x in src.a[1:3]) \
                and (len(src.a) < 4 or src.a[3] is NONE or src.a[3] is C(1)):
            a, b = src.a[1], src.a[2]
            return (0 if a is NONE else cval(a), None if b is NONE else cval(b))
        return None

    def sequence(self, c, L, S, label):
        """[(source, reversed, extra condition, item)] a local list is made of, in its final order"""
        segs = []
        ops = [(g, e) for g, e in c.events if e.kind == "listop" and c.assume(e.data[0]) is L]
        if not ops:
            o = self.r.heap.get(L)
            if o is None:
                raise Unclear("a list made elsewhere")
            for g, v in o.items:
                segs.append(self.segment(c.assume(g), c.assume(v), S, True))
            return segs
        inner = iterations(self.r.events)
        prev = None
        for g, e in ops:
            op, args = e.data[1], e.data[2]
            lp = inner.get(id(e))
            if op == "append":
                seg = self.segment(g, c.assume(args[0]), S, True)
                if lp is not None and lp is prev and segs and segs[-1][:2] == seg[:2] and conj(segs[-1][2], seg[2]) is FALSE:
                    # one or the other in each iteration
                    old = segs.pop()
                    seg = old[:2] + (disj(old[2], seg[2]), mk("phi", old[2], old[3], seg[3]))
                segs.append(seg)
                prev = lp
                continue
            prev = None
            if op == "append":
                pass
            elif op == "insert" and args[0] is C(0):
                segs.insert(0, self.segment(g, c.assume(args[1]), S, False))
            elif op == "reverse" and g is TRUE:
                segs = [(s, not b, q, i) for s, b, q, i in reversed(segs)]
            elif op == "extend":
                fl = Flows(self.r)
                sub = fl.local(args[0])
                if sub is None:
                    raise Unclear(f"extended with {show(args[0])[:80]}")
                if args[0].op == "call" and args[0].a[0] in ("reversed", "sorted", "set"):
                    raise Unclear(args[0].a[0])
                for h, _, v in sub:
                    segs.append(self.segment(conj(g, c.assume(h)), c.assume(v), S, True))
            else:
                raise Unclear(f"a list changed by {op}")
        return segs

    def segment(self, g, item, S, right):
        lps = loops_of(g)
        rest = less(g, *lps)
        if len(lps) > 1:
            raise Unclear("nested loops")
        if not lps:
            src = {x for h, o in leaves(item) for x in self.sources_of(o, S)}
            src = {x for x in src if not any(x is not y and any(z is x for z in walk(y)) for y in src)}
            if len(src) != 1:
                raise Unclear("a part of unknown origin")
            return (src.pop(), False, rest, item)
        it = lps[0].a[0]
        back = False
        while it.op == "call" and it.a[0] in ("reversed", "list", "tuple", "iter", "enumerate") and len(it.a) == 2:
            if it.a[0] == "reversed":
                back = not back
            it = it.a[1]
        if it.op == "call":
            raise Unclear(it.a[0])
        if it.op == "slice" and len(it.a) > 3 and it.a[3] is C(-1) and it.a[1] is NONE and it.a[2] is NONE:
            it = it.a[0]
            back = not back
        return (it, back if right else not back, rest, item)

    def sources_of(self, obj, S):
        """sub-elements named by the attributes of a local object"""
        res = set()
        for g, e in self.r.flat():
            if e.kind == "setattr" and any(o is obj for _, o in leaves(e.data[0])) and e.data[1] in ("name", "array_size"):
                for x in walk(e.data[2]):
                    if x.op == "item" and x.a[0] is S:
                        res.add(x)
        return res

    def part(self, label, c, x, item, array, last, whole):
        rep = self.rep
        kind = "ArrayTypeElement" if array else "RecordTypeElement"
        want = self.prog.cls(kind, MOD)
        cat = attr(x, "category")
        typed = last and not whole or not array or whole
        noun = "dimension" if array else "member"
        key = f"{label}:{noun}" + (":last" if array and last and not whole else "")
        what = f"a {noun} of {label}" if not (array and last) else f"the last dimension of {label}"
        cases = [("VALUE", "ScalarType", "base_type", "base_type_ref"), ("TYPE_REFERENCE", "RefType", "impl_type", "impl_data_type_ref")] \
            if typed else [(None, None, None, None)]
        for k, sort, link, ref in cases:
            d = Case(self.r, self.also(c, cat, k)) if k else c
            for g, o in leaves(d.assume(item)):
                if g is FALSE:
                    continue
                ho = self.r.heap.get(o) if o.op == "obj" else None
                if ho is None or ho.cls is None:
                    rep.skip(f"{what}: {show(o)[:80]}")
                    return
                if ho.cls is not want:
                    rep.find(f"{key}:kind", f"{what} becomes a {ho.cls.name}", self.at)
                    return
                sub = f"{key}:{k or ''}"
                self.expect(f"{sub}:name", what, d, o, "name", lambda gg, y: y is attr(x, "name"), g)
                if array:
                    self.expect(f"{sub}:size", what, d, o, "array_size", lambda gg, y: y is attr(x, "array_size"), g)
                if not k:
                    self.expect(f"{sub}:type", what, d, o, "data_type", lambda gg, y: y is NONE, g)
                    continue
                if array and whole:
                    rep.skip(f"{what}: one loop for all dimensions")
                    continue
                v = d.value(o, "data_type")
                if v is None:
                    rep.find(f"{sub}:type", f"{what} of category {k} has no type", self.at)
                    continue
                for g2, t in leaves(v, g):
                    if g2 is FALSE:
                        continue
                    ht = self.r.heap.get(t) if t.op == "obj" else None
                    if ht is None or ht.cls is None:
                        if t is NONE:
                            rep.find(f"{sub}:type", f"{what} of category {k} has no type", self.at)
                        else:
                            rep.skip(f"{what}: type {show(t)[:80]}")
                        continue
                    if ht.cls is not self.prog.cls(sort, MOD):
                        rep.find(f"{sub}:type", f"{what} of category {k} is a {ht.cls.name}", self.at)
                        continue
                    self.expect(f"{sub}:{link}", what, d, t, link, self.target(x, ref), g2)
                if array:
                    for a, b, en in ENUMS:
                        self.enum(f"{sub}:{a}", what, d, o, a, attr(x, b), en, g)
        if typed:
            d = Case(self.r, self.also(c, cat, "\0other"))
            no = FALSE
            for g, e in d.events:
                if e.kind == "raise":
                    g2 = less(g, *[p for p in loops_of(g) if x.op == "elem" and strip(p.a[0]) is x.a[0]])
                    no = disj(no, g2)
            self.must_fail(f"{key}:other", f"{what} of another category", no)

    def enum(self, key, what, d, o, a, v, en, where):
        cls = self.prog.cls(en, "autosar.model.enumeration")

        def ok(g, x):
            if conj(g, mk("nn", v)) is FALSE:
                return True if x is NONE else None
            if x is NONE:
                return False
            if x.op in ("item", "index", "sub") and x.a[0].op == "cls" and x.a[0].a[0] is cls and x.a[1] is attr(v, "name"):
                return True
            if x is v or x.op == "attr":
                return False
            if x.op == "item" and x.a[0].op == "cls":
                return False
            return None
        # the conversion by name needs the same names
        xe = self.prog.find_cls(en, "autosar.xml.enumeration")
        if xe is not None:
            lack = sorted({n for n, _ in xe.enum_members()} - {n for n, _ in cls.enum_members()})
            if lack:
                self.rep.find(f"{key}:members", f"the model has no {en} for {', '.join(lack)}", "autosar.model.enumeration")
        self.expect(key, what, d, o, a, lambda g, x: ok(g, x), conj(where, mk("nn", v)))

    # ------------------------------------------------------------ requested types
    def sources(self):
        rep = self.rep
        if self.src is None:
            rep.skip(f"{self.at}: no parameter for the source")
            return
        col = attr(ME, "source_type_refs")
        adds = [(g, e.data[2]) for g, e in self.r.flat() if e.kind in ("mcall", "listop") and e.data[0] is col and e.data[1] in ("add", "append")]
        if not adds:
            if any(x is col for g, e in self.r.flat() for y in e.data if isinstance(y, T) for x in walk(y)):
                rep.skip(f"{self.at}: how requested types are recorded")
            else:
                rep.find("sources:none", "requested types are not recorded", self.at)
            return
        idt = self.prog.cls("ImplementationDataType")
        for label, cls, category, seen in [("SwBaseType", self.prog.cls("SwBaseType"), None, FALSE)] + [
                (k, idt, k, FALSE) for k in SORTS] + [("a known type", idt, "VALUE", TRUE)]:
            go = case(self.prog, self.E, cls, category, {"seen": seen})
            fail = disj(*[go(g) for g, e in self.r.flat() if e.kind == "raise" and not loops_of(go(g))])
            got = disj(*[go(g) for g, _ in adds])
            want = mk("truthy", self.src)
            rep.count("source cases")
            miss = conj(want, neg(got), neg(fail))
            over = conj(got, neg(want))
            if over is not FALSE:
                rep.find(f"sources:{label}:over", f"{label}: a type only referred to counts as requested", self.at)
            elif miss is not FALSE:
                if unclear(miss):
                    rep.skip(f"{self.at}: {label}: when a requested type is recorded")
                else:
                    rep.find(f"sources:{label}:missing", f"{label}: a requested type is not recorded" + self.when(conj(*[
                        p for p in parts(miss) if p is not want])), self.at)
            else:
                rep.ok()
            for g, args in adds:
                for h, v in leaves(go(args[0]), go(g)):
                    if h is FALSE or conj(h, neg(fail)) is FALSE or v is self.key:
                        continue
                    if v.op == "attr" and v.a[1] == "ref" or unclear(v) or v.op in ("mcall", "call"):
                        continue
                    rep.find(f"sources:{label}:key", f"{label}: a requested type is recorded as {show(v)[:100]}", self.at)

    def repeat(self, idt):
        """an element asked for twice gives the same type"""
        for label, cls, category in [("SwBaseType", self.prog.cls("SwBaseType"), None)] + [(k, idt, k) for k in SORTS]:
            go = case(self.prog, self.E, cls, category, {"seen": TRUE})
            c = Case(self.r, go)
            for g, v in leaves(go(self.r.value)):
                if g is FALSE:
                    continue
                if lookup(v) is self.key:
                    self.rep.ok()
                elif v.op == "obj":
                    self.rep.find(f"{label}:again", f"{label}: a second type is made for an element that has one", self.at)
                else:
                    self.rep.skip(f"{self.at}: {label} asked for again gives {show(v)[:80]}")


# ---------------------------------------------------------------- the definitions
class Definitions(Gen):
    def check(self):
        got = self.outputs("write_type_defs_str")
        if got is None:
            return
        r, evs, out = got
        at = "TypeGenerator.write_type_defs_str"
        src = [x for g, t, e in out for x in walk(g) if x.op == "loop" and strip(x.a[0]).op == "mcall"
               and strip(x.a[0]).a[1] == "gen_data_type_creation_order"]
        if not src:
            self.rep.skip(f"{at}: the loop over the types")
            return
        lp = src[0]
        x = mk("elem", strip(lp.a[0]))
        S = attr(x, "sub_elements")
        byname = {k.name: k for k in self.kinds}
        for name in ("BaseType", "ScalarType", "RefType", "ArrayType", "RecordType"):
            k = byname.get(name)
            if k is None:
                continue
            tds = []
            for g, t, e in out:
                gk = as_class(g, x, k)
                if gk is FALSE or lp not in loops_of(gk):
                    continue
                t = as_class(t, x, k)
                for y in walk(t):
                    if y.op == "mcall" and y.a[1] == "typedef" and len(y.a) >= 4 and y not in tds:
                        tds.append(y)
            if len(tds) != 1:
                self.rep.skip(f"{at}: {len(tds)} definitions of {name}")
                continue
            td = tds[0]
            kws = {y.a[0]: y.a[1] for y in td.a[3:] if y.op == "kw"}
            target = td.a[3] if td.a[3].op != "kw" else None
            if target is None:
                self.rep.skip(f"{at}: target of {name}")
                continue
            self.rep.count("definitions")
            if name == "BaseType":
                self.target(at, name, target, {attr(x, "native_declaration")}, k, x)
            elif name == "ScalarType":
                b = attr(x, "base_type")
                self.target(at, name, target, {attr(b, "name"), attr(b, "native_declaration")}, k, x)
            elif name == "RefType":
                self.target(at, name, target, {attr(attr(x, "impl_type"), "name")}, k, x)
            elif name == "ArrayType":
                last = attr(mk("item", S, C(-1)), "data_type")
                self.member(at, name, target, last)
                dims = kws.get("array")
                if dims is None and len(td.a) > 4 and td.a[4].op != "kw":
                    dims = td.a[4]
                self.dims(at, dims, S)
            else:
                self.record(at, target, evs, x, S, lp, k)

    def target(self, at, name, t, good, k, x):
        for g, v in leaves(t):
            if v.op == "mcall" and v.a[1] == "type" and len(v.a) == 3:
                self.target(at, name, v.a[2], good, k, x)
            elif v in good:
                self.rep.ok()
            elif unclear(v) or v.op == "mcall":
                self.rep.skip(f"{at}: {name} is defined with {show(v)[:80]}")
            else:
                self.rep.find(f"def:{name}:target", f"a type of class {name} is defined with {show(v)[:100]}", at)

    def member(self, at, name, t, d, g0=TRUE):
        """the C type of a dimension or member whose model type is d"""
        b = attr(d, "base_type")
        i = attr(attr(d, "impl_type"), "name")
        for g, v in leaves(t, g0):
            if g is FALSE:
                continue
            if v.op == "mcall" and v.a[1] == "type" and len(v.a) == 3:
                self.member(at, name, v.a[2], d, g)
            elif v is attr(b, "native_declaration"):
                nat = mk("truthy", v)
                if conj(g, neg(nat)) is FALSE or conj(g, neg(mk("nn", v))) is FALSE:
                    self.rep.ok()
                else:
                    self.rep.find(f"def:{name}:native", f"the native declaration of a base type is used although it may be missing ({name})", at)
            elif v is attr(b, "name") or v is i:
                self.rep.ok()
            elif unclear(v) or v.op == "mcall":
                self.rep.skip(f"{at}: {name} is defined with {show(v)[:80]}")
            else:
                self.rep.find(f"def:{name}:target", f"a type of class {name} is defined with {show(v)[:100]}", at)

    def dims(self, at, dims, S):
        rep = self.rep
        if dims is None or dims is NONE:
            rep.find("def:ArrayType:size", "an array type is defined without its size", at)
            return
        size = attr(mk("elem", S), "array_size")
        if any(y is size for y in walk(dims)):
            j = [y for y in walk(dims) if y.op == "gi"]
            if len(j) == 1 and all(p.op == "loop" for p in parts(j[0].a[0])):
                it = loops_of(j[0].a[0])
                if len(it) == 1 and it[0].a[0] is S:
                    rep.ok()
                    return
                if len(it) == 1 and it[0].a[0].op == "call" and it[0].a[0].a[0] in ("reversed", "sorted", "set"):
                    rep.find("def:ArrayType:order", f"the dimensions of an array type are {it[0].a[0].a[0]}", at)
                    return
            if dims.op == "join":
                rep.ok()
                return
            rep.skip(f"{at}: array size {show(dims)[:100]}")
            return
        if any(y.op == "slice" and y.a[0] is S for y in walk(dims)) or any(
                y.op == "attr" and y.a[1] == "array_size" and y.a[0].op == "item" and y.a[0].a[0] is S for y in walk(dims)) or is_const(dims):
            rep.find("def:ArrayType:size", f"an array type is defined with the size {show(dims)[:100]}", at)
            return
        rep.skip(f"{at}: array size {show(dims)[:100]}")

    def record(self, at, target, evs, x, S, lp, k):
        rep = self.rep
        st = [y for y in walk(target) if y.op == "mcall" and y.a[1] == "struct"]
        if not st:
            rep.skip(f"{at}: RecordType is defined with {show(target)[:80]}")
            return
        snap = st[0].a[3] if len(st[0].a) > 3 else None
        mem = []
        for g, e in evs:
            if e.kind == "mcall" and e.data[1] == "struct_member":
                gk = as_class(less(g, lp), x, k)
                if gk is not FALSE:
                    mem.append((gk, e.data[2]))
        if len(mem) != 1 or snap is None:
            rep.skip(f"{at}: {len(mem)} kinds of struct members")
            return
        g, args = mem[0]
        sl = [p for p in loops_of(g) if p.a[0].op == "slice" and p.a[0].a[0] is S]
        rv = [p for p in loops_of(g) if p.a[0].op == "call" and p.a[0].a[0] in ("reversed", "sorted", "set")]
        if sl:
            rep.find("def:RecordType:members", f"a struct has only the members {show(sl[0].a[0])[:100]}", at)
            return
        if rv:
            rep.find("def:RecordType:order", f"the members of a struct are {rv[0].a[0].a[0]}", at)
            return
        y = mk("elem", S)
        ex = parts(less(g, *[p for p in loops_of(g) if strip(p.a[0]) is S]))
        if ex or not loops_of(g):
            if ex and not any(unclear(p) or p.op == "or" for p in ex):
                rep.find("def:RecordType:members", f"a struct has a member only when {show(conj(*ex))[:160]}", at)
            else:
                rep.skip(f"{at}: a struct has a member when {show(g)[:120]}")
            return
        for g2, e in evs:
            if e.kind == "listop" and e.data[2] and any(z.op == "mcall" and z.a[1] == "struct_member" for z in walk(e.data[2][-1])):
                if e.data[1] not in ("append", "extend"):
                    if any(e3.kind == "listop" and e3.data[0] is e.data[0] and e3.data[1] == "reverse" for _, e3 in evs):
                        rep.skip(f"{at}: the order of the struct members")
                    else:
                        rep.find("def:RecordType:order", f"the members of a struct are collected by {e.data[1]}", at)
                    return
        has = [z for z in walk(snap) if z.op == "mcall" and z.a[1] == "struct_member"]
        gis = [z for z in walk(snap) if z.op == "gi"]
        if not has:
            rep.skip(f"{at}: the members of a struct {show(snap)[:80]}")
            return
        for z in gis:
            more = [p for p in parts(z.a[0]) if p.op != "loop"]
            if more and not any(unclear(p) for p in more):
                rep.find("def:RecordType:members", f"a struct has a member only when {show(conj(*more))[:160]}", at)
                return
        rep.ok()
        if args and args[0] is attr(y, "name"):
            rep.ok()
        elif args and not unclear(args[0]) and args[0].op == "attr":
            rep.find("def:RecordType:name", f"a member of a struct is named {show(args[0])[:80]}", at)
        else:
            rep.skip(f"{at}: the name of a struct member")
        if len(args) > 1:
            self.member(at, "RecordType", args[1], attr(y, "data_type"))


def run(s, rep):
    Model(s, rep).run()
    Definitions(s, rep).check()
