"""
Elements made from plain Python data: what the class methods that make values, computations, constraints, events and com-specs
return is followed symbolically and compared with what the data says, form by form.
"""
from sa.terms import T, mk, C, NONE, TRUE, FALSE, attr, conj, disj, neg, phi, walk, show, is_const, cval
from sa.interp import Ev
from sa.methods import MethodAnalysis
from sa.ctor import param
from sa.program import ClassInfo
from rules.wiring import Wiring, WirePolicy, Events, Case

CALLED = ("make_value", "make_value_with_check")


class FactoryPolicy(WirePolicy):
    """values made elsewhere are opaque; what an object is made from is as it is at that time"""

    def call(self, ip, f, selfterm, pos, kws, st, node):
        if ip.frames and f.name == "is_queued":
            return attr(selfterm, f.name)
        if ip.frames and (f.name in CALLED or f.name.startswith("make_non_queued")):
            return mk("call", f.name, *[mk("kw", k, v) for k, v in self.named(f, pos, kws, selfterm is not None)])
        return super().call(ip, f, selfterm, pos, kws, st, node)

    def new(self, ip, c, pos, kws, st, node):
        def held(v):
            if isinstance(v, T) and v.op == "phi":
                return phi(v.a[0], held(v.a[1]), held(v.a[2]))
            return ip.snapshot(v, st) if isinstance(v, T) and v.op == "obj" else v
        return super().new(ip, c, [held(v) for v in pos], {k: held(v) for k, v in dict(kws).items()}, st, node)


class Made:
    """an object of a class with these arguments"""

    def __init__(self, cls, **fields):
        self.cls = cls
        self.fields = fields
        self.rest = fields.pop("rest", None)


class Called:
    def __init__(self, name, *args, rest=None, **kw):
        self.name, self.args, self.kw, self.rest = name, args, kw, rest


class Items:
    """a list of exactly these, or of one for each member of something"""

    def __init__(self, *items, each=None):
        self.items = items
        self.each = each


class Number:
    """the same number, whatever its type"""

    def __init__(self, t):
        self.t = t


UNKNOWN, SAME = object(), object()

TERMS = ("sym", "c", "attr", "item", "elem", "index", "mcall", "fstr", "slice", "kw", "cls", "enum", "em", "not", "and", "or", "nn", "truthy",
         "eq", "in", "inst", "loop", "phi", "tup", "lt", "le", "made", "concat", "list", "is", "snap", "gi", "rest", "add", "sub", "bin")


def clear(t):
    return all(x.op in TERMS or x.op == "call" and (x.a[0] in ("str", "len", "float", "int", "enumerate", "bool") or "make_" in x.a[0])
               for x in walk(t))


def deciding(g):
    """a condition on the data that is understood, and on which nothing should depend"""
    return clear(g) and not any(x.op in ("inst", "is", "loop", "nn") or x.op == "call" and x.a[0] == "type" for x in walk(g))


class Factories(Wiring):
    def __init__(self, s, rep):
        super().__init__(s, rep)
        self.ma = MethodAnalysis(s.prog, s.ctors, FactoryPolicy)
        self.memo = {}

    def start(self, cls, name):
        m = self.method(self.prog.cls(cls), name)
        if m is None:
            return False
        self.name = name
        self.flat = [(self.plain(g), Ev(e.kind, self.plain(tuple(e.data)), e.line, e.func, e.pc)) for g, e in m[0]]
        self.val = self.plain(m[1])
        self.loops = {x for t in (*Events.terms(self, self.flat), *([self.val] if isinstance(self.val, T) else [])) for x in walk(t) if x.op == "loop"}
        return True

    def case(self, **kw):
        loops = kw.pop("loops", True)
        kw["true"] = [*kw.get("true", []), *(self.loops if loops else [])]
        c = Case(self.prog, **kw)
        self.evs = c.run(self.flat)
        self.c = c
        return c

    # ------------------------------------------------------------ judging
    def refusal(self, key, what, **kw):
        self.rep.count("forms")
        self.case(**kw)
        raises = [g for g, e in self.evs if e.kind == "raise"]
        if any(g is TRUE for g in raises):
            self.rep.ok()
        elif not raises:
            self.rep.find(key, f"{self.at}: {what} is not refused", self.at)
        elif all(deciding(g) for g in raises):
            self.rep.find(key, f"{self.at}: {what} is refused only when {show(raises[0])[:200]}", self.at)
        else:
            self.rep.skip(f"{self.at}: {what}")

    def result(self, key, what, want, value=None, **kw):
        self.rep.count("forms")
        c = self.case(**kw)
        for g, e in self.evs:
            if e.kind == "raise" and (g is TRUE or deciding(g)):
                self.rep.find(key, f"{self.at}: {what} is refused" + ("" if g is TRUE else f" when {show(g)[:200]}"), self.at)
                return
        v = self.val if value is None else value
        if v is None:
            self.rep.find(key, f"{self.at}: {what} gives nothing", self.at)
            return
        self.compare(key, what, c.reduce(v), want)

    def compare(self, key, what, got, want):
        r = self.differs(got, want)
        if r is None:
            self.rep.ok()
        elif r is UNKNOWN:
            self.rep.skip(f"{self.at}: {what}")
        else:
            self.rep.find(key + ":" + r[0] if r[0] else key, f"{self.at}: {what}: {r[1]}", self.at)

    def differs(self, got, want, where=""):
        """None if it is as wanted, UNKNOWN, or (place, how it differs)"""
        got = self.c.reduce(got) if isinstance(got, T) else got
        here = f"{where} is " if where else ""
        if got.op == "phi":
            a, b = self.differs(got.a[1], want, where), self.differs(got.a[2], want, where)
            if a is None and b is None:
                return None
            if a is UNKNOWN or b is UNKNOWN or not deciding(got.a[0]):
                return UNKNOWN
            return (where, f"{here}{show(got)[:240]}")
        wrong = (where, f"{here}{show(got)[:240]}") if clear(got) else UNKNOWN
        if isinstance(want, Made):
            if got.op != "made" or getattr(got.a[0], "name", got.a[0]) != want.cls:
                return wrong
            return self.fields(got, got.a[1:], want.fields, want.rest, where, want.cls)
        if isinstance(want, Called):
            if got.op != "call" or got.a[0] != want.name:
                return wrong
            kws = [x for x in got.a[1:]]
            first = [k for k in kws if not k.a[0].startswith("**") and k.a[0] not in want.kw]
            if len(first) != len(want.args):
                return wrong
            for k, w in zip(first, want.args):
                r = self.differs(k.a[1], w, where)
                if r is not None:
                    return r
            return self.fields(got, [k for k in kws if k not in first], want.kw, want.rest, where, None)
        if isinstance(want, Items):
            if got.op in ("tup", "list"):
                items = [(TRUE, x) for x in got.a]
            elif got.op == "snap" and got.a[0] in ("list", "tuplelist", "tuple") and got.a[1] in (NONE, None) and \
                    all(isinstance(x, T) and x.op == "gi" for x in got.a[2:]):
                items = [(x.a[0], x.a[1]) for x in got.a[2:]]
            else:
                return wrong if got.op in ("c", "sym") else UNKNOWN
            items = [(g, v) for g, v in items if g is not FALSE]
            wanted = want.items if want.each is None else [want.each]
            if not all(g is TRUE for g, v in items):
                g = next(g for g, v in items if g is not TRUE)
                return (where, f"{here}left out unless {show(g)[:200]}") if deciding(g) else UNKNOWN
            if len(items) != len(wanted):
                return (where, f"{here}{len(items)} members for {len(wanted)}") if all(clear(v) for g, v in items) else UNKNOWN
            for i, ((g, v), w) in enumerate(zip(items, wanted)):
                r = self.differs(v, w, (where + " " if where else "") + ("member" if len(wanted) == 1 else f"member {i}"))
                if r is not None:
                    return r
            return None
        if isinstance(want, Number):
            t = got
            while t.op == "call" and t.a[0] in ("float", "int") and len(t.a) == 2 and t is not want.t:
                t = t.a[1]
            return None if self.equal(t, want.t) else wrong
        return None if self.equal(got, want) else wrong

    def equal(self, a, b):
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if is_const(x) and y in self.c.vals and type(cval(x)) is type(self.c.vals[y]) and cval(x) == self.c.vals[y]:
                return True
        return a is NONE and b in self.c.none or b is NONE and a in self.c.none

    def plain(self, t):
        """one form for parts of tuples and lists"""
        if isinstance(t, tuple):
            return tuple(self.plain(x) for x in t)
        if not isinstance(t, T):
            return t
        if t in self.memo:
            return self.memo[t]
        a = tuple(self.plain(x) for x in t.a)
        r = mk(t.op, *a) if any(x is not y for x, y in zip(a, t.a)) else t
        if t.op == "rest":
            r = mk("slice", a[0], a[1], NONE, NONE)
        elif t.op == "item" and a[0].op == "slice" and len(a[0].a) == 4 and a[0].a[3] is NONE and is_const(a[1]) and cval(a[1]) in (0, 1, 2):
            x, low, high, _ = a[0].a
            k = cval(a[1]) + (cval(low) or 0 if is_const(low) else -9)
            if k >= 0 and (high is NONE or is_const(high) and k < cval(high)):
                r = mk("item", x, C(k))
        elif t.op in ("and", "or", "not", "phi"):
            r = {"and": conj, "or": disj, "not": neg, "phi": phi}[t.op](*a)
        self.memo[t] = r
        return r

    def fields(self, got, kws, want, rest, where, cls):
        have = {k.a[0]: k.a[1] for k in kws}
        extra = [v for k, v in have.items() if k.startswith("**")]
        if (extra != [rest]) if rest is not None else extra:
            if extra and not all(clear(x) for x in extra) or any(k.startswith("*") and not k.startswith("**") for k in have):
                return UNKNOWN
            return (where, f"the other arguments of the {cls or got.a[0]} are {', '.join(show(x) for x in extra) or 'dropped'}")
        for k, w in want.items():
            place = f"{where} {k}".strip()
            r = self.differs(have[k], w, place) if k in have else None if w is NONE or isinstance(w, T) and w in self.c.none \
                else (place, f"{place} is not set")
            if r is not None:
                return r
        for k, v in have.items():
            if k not in want and not k.startswith("*") and not self.default(cls, k, v):
                return (f"{where} {k}".strip(), f"{where} {k} is {show(v)[:200]}") if clear(v) else UNKNOWN
        return None

    def default(self, cls, k, v):
        v = self.c.reduce(v)
        if v is NONE or v in self.c.none:
            return True
        c = self.prog.cls(cls) if cls else None
        init = c.lookup("__init__") if isinstance(c, ClassInfo) else None
        if init is None:
            return False
        a = init.node.args
        names = [x.arg for x in a.args]
        ds = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        ds.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        try:
            import ast
            return k in ds and is_const(v) and ast.literal_eval(ds[k]) == cval(v)
        except ValueError:
            return v.op == "em" and ds[k].attr == v.a[-1] if isinstance(ds[k], ast.Attribute) else False

    # ------------------------------------------------------------ the forms
    def run(self):
        for m in (self.value_table, self.rational, self.constraints, self.checked, self.values, self.constants, self.forwarded,
                  self.init_values):
            try:
                m()
            except (AttributeError, KeyError, IndexError) as x:
                self.rep.skip(f"{m.__name__}: {x!r}")
        for cls, kinds in COM_SPECS.items():
            self.com_specs(cls, kinds)

    def value_table(self):
        if not self.start("Computation", "make_value_table"):
            return
        data, auto = param("elements"), param("auto_label")
        e = mk("elem", data)

        def want(low, high, text, label):
            return Made("Computation", default_value=param("default_value"), compu_scales=Items(each=Made(
                "CompuScale", content=Made("CompuConst", value=text), lower_limit=low, upper_limit=high, label=label)))
        n = mk("index", data)
        forms = [("a list of texts", {e: "str"}, {}, want(n, n, e, NONE), e, ("str",)),
                 ("a list of pairs", {e: "tuple"}, {e: 2}, None, mk("item", e, C(1)), ("str", "float", "int")),
                 ("a list of triples", {e: "tuple"}, {e: 3}, None, mk("item", e, C(2)), ("str", "float", "int"))]
        for what, kinds, lens, w, text, types in forms:
            low = n if text is e else mk("item", e, C(0))
            high = mk("item", e, C(1)) if lens.get(e) == 3 else low
            for ty in types:
                for yes in (True, False):
                    for full in (True, False):
                        for ends in ((True, False) if text is not e else (True,)):
                            label = text if yes and ty == "str" else NONE
                            fix = [mk("truthy", auto)] if yes else []
                            no = [] if yes else [mk("truthy", auto)]
                            (fix if full else no).append(mk("truthy", text))
                            (fix if ends else no).extend(mk("truthy", x) for x in {low, high})
                            word = f"{what}, {'a' if full else 'an empty' if ty == 'str' else 'a zero'} {ty} as value" + \
                                (", labels made" if yes else ", no labels") + ("" if ends else ", limits of zero")
                            self.result(f"table:{len(lens) and lens[e]}", word, want(low, high, text, label),
                                        kinds={**kinds, text: ty}, lens=lens, true=fix, false=no)
        for k in (1, 4):
            self.refusal("table:size", f"a tuple of {k}", kinds={e: "tuple"}, lens={e: k})
        for k in ("int", "dict"):
            self.refusal("table:type", f"an entry which is neither text nor tuple ({k})", kinds={e: k})

    def rational(self):
        if not self.start("Computation", "make_rational"):
            return
        p = {n: param(n) for n in ("lower_limit", "upper_limit", "lower_limit_type", "upper_limit_type")}
        f, o = param("scaling_factor"), param("offset")
        want = Made("Computation", default_value=param("default_value"), compu_scales=Items(
            Made("CompuScale", content=Made("CompuRational", numerator=Items(Number(o), Number(f)), denominator=Items(Number(C(1)))), **p)))
        for x in (f, o):
            for limit in (True, False):
                for full in (True, False):
                    ts = [x, p["lower_limit"], p["upper_limit"]]
                    self.result("rational", f"a factor and an offset{'' if full else ' of which one is 0'}, limits{'' if limit else ' of 0'}",
                                want, vals={} if full else {x: 0}, true=([mk("truthy", x)] if full else []) +
                                ([mk("truthy", t) for t in ts[1:]] if limit else []),
                                false=([] if full else [mk("truthy", x)]) + ([] if limit else [mk("truthy", t) for t in ts[1:]]))

    def constraints(self):
        names = ["lower_limit", "upper_limit", "scale_constr", "max_gradient", "max_diff", "monotony", "lower_limit_type", "upper_limit_type"]
        for which, cls, more in (("physical", "PhysicalConstraint", ["unit_ref"]), ("internal", "InternalConstraint", [])):
            if not self.start("DataConstraint", "make_" + which):
                continue
            p = {n: param(n) for n in names + more}
            want = Made("DataConstraint", name=param("name"), rest=param("**kwargs"), rules=Items(
                Made("DataConstraintRule", **{which: Made(cls, **p)})))
            for zero in (False, True):
                ts = [mk("truthy", t) for t in p.values()]
                self.result(f"constraint:{which}", f"limits and rules{', all of them 0 or empty' if zero else ''}", want,
                            kinds={t: "int" for n, t in p.items() if n in ("lower_limit", "upper_limit", "max_gradient", "max_diff")},
                            true=[] if zero else ts, false=ts if zero else [])

    def checked(self):
        if not self.start("ValueSpecification", "make_value_with_check"):
            return
        v = param("value")
        self.result("checked:none", "nothing", NONE, none=[v])
        for c in ("NumericalValueSpecification", "ConstantReference", "ArrayValueSpecification", "NotAvailableValueSpecification"):
            self.result("checked:ready", f"a {c}", v, kinds={v: self.prog.cls(c)})
        self.result("checked:ref", "a reference to a constant", Made("ConstantReference", constant_ref=v), kinds={v: self.prog.cls("ConstantRef")})
        for k in ("int", "float", "str", "list", "tuple"):
            self.result(f"checked:{k}", f"a {k}", Called("make_value", v), kinds={v: k}, true=[mk("truthy", v)])
            if k in ("int", "float", "str"):
                self.result(f"checked:{k}", f"a {k} that is {'empty' if k == 'str' else 'zero'}", Called("make_value", v),
                            kinds={v: k}, false=[mk("truthy", v)], vals={v: "" if k == "str" else 0 if k == "int" else 0.0})
        self.refusal("checked:type", "a dictionary", kinds={v: "dict"})

    def values(self):
        if not self.start("ValueSpecification", "make_value"):
            return
        d = param("data")
        marks = ["A", "a", "ARRAY", "Array", "R", "r", "RECORD", "Record"]
        forms = [("a plain value", d, NONE, NONE, {}, {}), ("a label and a value", mk("item", d, C(1)), mk("item", d, C(0)), NONE, {d: "tuple"}, {d: 2}),
                 ("a label, a value and a pattern", mk("item", d, C(1)), mk("item", d, C(0)), mk("item", d, C(2)), {d: "tuple"}, {d: 3})]
        for what, v, label, pattern, kinds, lens in forms:
            kinds = {**kinds, **({label: "str"} if label is not NONE else {})}
            pairs = [mk("truthy", label), mk("truthy", pattern)] if label is not NONE else []
            for full in (True, False) if pairs else (True,):
                kw = {"true": pairs} if full else {"false": pairs}
                blank = "" if full else " (label and pattern are empty)"
                if pattern is not NONE:
                    self.result("value:none", f"{what}: nothing{blank}", Made("NotAvailableValueSpecification", label=label, default_pattern=pattern),
                                kinds=kinds, lens=lens, none=[v], **kw)
                    continue
                self.result("value:none", f"{what}: nothing{blank}", Made("NotAvailableValueSpecification", label=label),
                            kinds=kinds, lens=lens, none=[v], **kw)
                for k, cls in (("int", "NumericalValueSpecification"), ("float", "NumericalValueSpecification"), ("str", "TextValueSpecification")):
                    for some in (True, False):
                        t = {"true": list(kw.get("true", ())), "false": list(kw.get("false", ()))}
                        t["true" if some else "false"].append(mk("truthy", v))
                        self.result(f"value:{k}", f"{what}: a {k}{'' if some else ' that is empty or zero'}{blank}", Made(cls, label=label, value=v),
                                    kinds={**kinds, v: k}, lens=lens, **t)
                mark = mk("item", v, C(0))
                rest = mk("slice", v, C(1), NONE, NONE)
                for m in marks if full else ["A", "R"]:
                    cls, field = ("ArrayValueSpecification", "elements") if m[0] in "Aa" else ("RecordValueSpecification", "fields")
                    self.result(f"value:{field}", f"{what}: a list marked {m}{blank}",
                                Made(cls, label=label, **{field: Items(each=Called("make_value", mk("elem", rest)))}),
                                kinds={**kinds, v: "list", mark: "str"}, lens=lens, vals=self.spelled(mark, m), **kw)
                if full:
                    for m in ("X", "", "ARR"):
                        self.refusal("value:mark", f"{what}: a list marked {m!r}", kinds={**kinds, v: "list", mark: "str"}, lens=lens,
                                     vals=self.spelled(mark, m))
                    self.refusal("value:unmarked", f"{what}: a list that begins with a number", kinds={**kinds, v: "list", mark: "int"}, lens=lens)
                    self.refusal("value:type", f"{what}: a dictionary", kinds={**kinds, v: "dict"}, lens=lens)
        first = mk("item", d, C(0))
        self.refusal("value:size", "a tuple of 4", kinds={d: "tuple", first: "str"}, lens={d: 4})
        self.refusal("value:label", "a label which is not a text", kinds={d: "tuple", first: "int"}, lens={d: 2})

    @staticmethod
    def spelled(t, text):
        return {t: text, **{mk("mcall", t, n): getattr(text, n)() for n in ("upper", "lower", "casefold", "strip", "capitalize", "title")}}

    def constants(self):
        if self.start("ConstantSpecification", "make_constant"):
            v = param("value")
            for zero in (False, True):
                self.result("constant", f"a name and a value{' of zero' if zero else ''}", Made(
                    "ConstantSpecification", name=param("name"), value=Called("make_value", v), rest=param("**kwargs")),
                    **{"false" if zero else "true": [mk("truthy", v)]})

    def init_values(self):
        for cls, side in (("ProvidePortComSpec", "sender"), ("RequirePortComSpec", "receiver")):
            if self.start(cls, f"make_non_queued_{side}_com_spec"):
                v = param("init_value")
                for what, kw in (("an initial value", {"true": [mk("truthy", v)], "present": [v]}),
                                 ("an initial value of zero", {"false": [mk("truthy", v)], "present": [v]})):
                    self.result("init_value", what, Made(f"Nonqueued{side.capitalize()}ComSpec", rest=param("**kwargs"),
                                                         init_value=Called("make_value_with_check", v)), **kw)

    def forwarded(self):
        for (cls, name), want in FORWARDED.items():
            if not self.start(cls, name):
                continue
            if param("args") in {x for g, e in self.flat for x in walk(g)} or name.endswith("with_args"):
                self.result(f"forward:{cls}:{name}", "the arguments and no others", self.built(want, None), none=[param("args")])
                self.result(f"forward:{cls}:{name}", "the arguments and others", self.built(want, param("args")),
                            kinds={param("args"): "dict"}, true=[mk("truthy", param("args"))])
            else:
                self.result(f"forward:{cls}:{name}", "the arguments", self.built(want, param("**kwargs")))

    def built(self, want, rest):
        cls, fields = want
        return Made(cls, rest=rest, **{k: param(v) if isinstance(v, str) else self.built(v, None) for k, v in fields.items()})

    # ------------------------------------------------------------ com-specs
    def com_specs(self, cls, kinds):
        if not self.start(cls, "make_from_port_interface"):
            return
        pi, kwargs = param("port_interface"), param("**kwargs")
        for ifc, (coll, field, specs) in kinds.items():
            base = {pi: self.prog.cls(ifc)}
            if ifc == "ModeSwitchInterface":
                group = attr(pi, coll)
                self.refusal("mode:none", "a mode switch interface without mode group", kinds=base, none=[group])
                self.result("mode", "a mode switch interface", Made(specs[0], rest=kwargs, **{field: mk("mcall", group, "ref")}), kinds=base, present=[group])
                continue
            coll = attr(pi, coll)
            self.refusal(f"{ifc}:empty", f"a {ifc} without {coll.a[1]}", kinds=base, lens={coll: 0})
            one, each = mk("item", coll, C(0)), mk("elem", coll)
            for i, spec in enumerate(specs):
                queued = "" if len(specs) == 1 else " (queued)" if i else " (not queued)"
                for e, what in ((one, "the only one"), (each, "one of several")):
                    q = [mk("truthy", attr(e, "is_queued"))] if len(specs) > 1 else []
                    qs = {"true" if i else "false": q}
                    rest = kwargs if e is one else mk("item", kwargs, attr(e, "name"))
                    f = {field: mk("mcall", e, "ref")}
                    want = Called(spec, rest=rest, **f) if spec.startswith("make_") else Made(spec, rest=rest, **f)
                    key = f"{ifc}:{spec}"
                    if e is one:
                        self.result(key, f"a {ifc}, {what}{queued}", want, kinds=base, lens={coll: 1}, **qs)
                    else:
                        self.several(key, f"a {ifc}, {what}{queued}", base, coll, kwargs, want, qs)
        self.refusal("other", "an interface of another kind", kinds={pi: "other"})
        for g, e in self.flat:
            if e.kind == "raise" and any(x.op in ("item", "subscript") and isinstance(x.a[0], T) and x.a[0].op in ("ext", "builtin", "cls", "sym", "type")
                                         and str(x.a[0].a[0]) in ("list", "tuple", "set", "sorted", "str") for y in e.data if isinstance(y, T) for x in walk(y)):
                self.rep.find("message", f"{self.at}: the message of a refusal is made from a type, not from the names", self.at)
                return
        self.rep.ok()

    def puts(self):
        """objects added to a list"""
        return [(g, e.data[2][0]) for g, e in self.evs if e.kind == "listop" and e.data[1] == "append" and len(e.data[2]) == 1 and
                any(x.op in ("made", "call") for x in walk(e.data[2][0]))]

    def several(self, key, what, base, coll, kwargs, want, qs):
        named = {x for g, e in self.flat for x in walk(g) if x.op == "in" and x.a[0] is attr(mk("elem", coll), "name")}
        dicts = {x for g, e in self.flat for x in walk(g) if x.op == "inst" and any(y is kwargs for y in walk(x.a[0]))}
        kw = {"kinds": base, "lens": {coll: 2}, "false": qs.get("false", [])}
        true = [*qs.get("true", []), *dicts]
        self.rep.count("forms")
        self.case(**kw, true=[*true, *named])
        puts = self.puts()
        if not named or len(puts) != 1:
            self.rep.skip(f"{self.at}: {what}")
        elif puts[0][0] is not TRUE:
            if deciding(puts[0][0]):
                self.rep.find(key, f"{self.at}: {what} is made only when {show(puts[0][0])[:200]}", self.at)
            else:
                self.rep.skip(f"{self.at}: {what}")
        else:
            self.compare(key, what, puts[0][1], want)
        if not named:
            return
        kept = {x.a[1] for x in named if x.a[1].op == "obj"}         # the names not yet dealt with
        gone = {e.data[0] for g, e in self.evs if e.kind == "listop" and e.data[1] in ("remove", "discard")}
        left = [g for g, e in self.evs if e.kind == "raise" and any(x.op in ("truthy", "lt", "le", "eq") for x in walk(g))]
        added = {e.data[0] for g, e in self.evs if e.kind == "listop" and e.data[1] == "add"}
        if kept and kept <= added and not kept & gone and left and not any(e.kind == "listop" and e.data[1] not in ("append", "add", "remove", "discard")
                                                                           for g, e in self.evs):
            self.rep.find(key + ":left", f"{self.at}: {what}: its name is still taken as one that is not found", self.at)
        self.rep.count("forms")
        self.case(kinds=base, lens={coll: 2}, true=true, false=[*kw["false"], *named])
        if self.puts():
            self.rep.find(key + ":unnamed", f"{self.at}: {what}: made for one that is not asked for", self.at)
        elif not any(e.kind == "raise" for g, e in self.evs):
            self.rep.find(key + ":unknown", f"{self.at}: names that the interface does not have are not refused", self.at)
        else:
            self.rep.ok()


EVENT = {"name": "name", "start_on_event": "start_on_event"}
DATA = ("RVariableInAtomicSwcInstanceRef", {"context_port": "context_port", "target_data_element": "target_data_element"})
VARIABLE = {"name": "name", "accessed_variable": ("AutosarVariableRef", {"ar_variable_iref": (
    "VariableInAtomicSWCTypeInstanceRef", {"port_prototype_ref": "port_prototype_ref", "target_data_prototype_ref": "target_data_prototype_ref"})})}
FORWARDED = {
    ("DataReceiveErrorEvent", "make"): ("DataReceiveErrorEvent", {**EVENT, "data": DATA}),
    ("DataReceivedEvent", "make"): ("DataReceivedEvent", {**EVENT, "data": DATA}),
    ("ExternalTriggerOccurredEvent", "make"): ("ExternalTriggerOccurredEvent", {**EVENT, "trigger": (
        "RTriggerInAtomicSwcInstanceRef", {"context_port": "context_port", "target_trigger": "target_trigger"})}),
    ("OperationInvokedEvent", "make"): ("OperationInvokedEvent", {**EVENT, "operation": (
        "POperationInAtomicSwcInstanceRef", {"context_port": "context_port", "target_provided_operation": "target_provided_operation"})}),
    ("SwcModeManagerErrorEvent", "make"): ("SwcModeManagerErrorEvent", {**EVENT, "mode_group": (
        "PModeGroupInAtomicSwcInstanceRef", {"context_port": "context_port", "target_mode_group": "context_mode_declaration_group_prototype"})}),
    ("SwcModeSwitchEvent", "make"): ("SwcModeSwitchEvent", {**EVENT, "activation": "activation", "mode": (
        "RModeInAtomicSwcInstanceRef", {n: n for n in ("context_port", "context_mode_declaration_group_prototype", "target_mode_declaration")})}),
    ("VariableAccess", "make_from_port"): ("VariableAccess", VARIABLE),
    ("VariableAccess", "make_from_port_with_args"): ("VariableAccess", VARIABLE),
    ("ModeAccessPointIdent", "make_with_args"): ("ModeAccessPointIdent", {"name": "name"}),
}
COM_SPECS = {
    "ProvidePortComSpec": {
        "SenderReceiverInterface": ("data_elements", "data_element_ref", ("make_non_queued_sender_com_spec", "QueuedSenderComSpec")),
        "ClientServerInterface": ("operations", "operation_ref", ("ServerComSpec",)),
        "ModeSwitchInterface": ("mode_group", "mode_group_ref", ("ModeSwitchSenderComSpec",))},
    "RequirePortComSpec": {
        "SenderReceiverInterface": ("data_elements", "data_element_ref", ("make_non_queued_receiver_com_spec", "QueuedReceiverComSpec")),
        "ClientServerInterface": ("operations", "operation_ref", ("ClientComSpec",)),
        "ModeSwitchInterface": ("mode_group", "mode_group_ref", ("ModeSwitchReceiverComSpec",))},
}


def run(s, rep):
    Factories(s, rep).run()
