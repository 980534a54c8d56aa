"""
Parts created through their owner: what each create method adds to its owner and returns, form by form of its arguments.
"""
from sa.terms import T, mk, C, NONE, TRUE, FALSE, attr, walk, show, is_const, cval
from sa.methods import MethodAnalysis, ME
from sa.ctor import param
from rules.factories import Factories, FactoryPolicy, Made, Called, Items, UNKNOWN, deciding, clear

KW = param("**kwargs")


class OwnerPolicy(FactoryPolicy):
    def call(self, ip, f, selfterm, pos, kws, st, node):
        if ip.frames and f.name == "make_from_port_interface":
            return mk("call", f"{selfterm.a[0].name if selfterm is not None and selfterm.op == 'cls' else f.cls.name}.{f.name}",
                      *[mk("kw", k, v) for k, v in self.named(f, pos, kws, selfterm is not None)])
        return super().call(ip, f, selfterm, pos, kws, st, node)

    def new(self, ip, c, pos, kws, st, node):
        if c.module.name == "autosar.xml.reference":
            init = c.lookup("__init__")
            return mk("made", c, *[mk("kw", k, v) for k, v in self.named(init, pos, kws, True) if v is not NONE])
        return super().new(ip, c, pos, kws, st, node)


class Owners(Factories):
    def __init__(self, s, rep):
        super().__init__(s, rep)
        self.ma = MethodAnalysis(s.prog, s.ctors, OwnerPolicy)

    def run(self):
        for (owner, name), (where, cls, fields) in CREATED.items():
            if self.start(owner, name):
                self.simple(where, cls, fields)
        for m in (self.invalidation, self.ports, self.behavior, self.runnables, self.options):
            try:
                m()
            except (AttributeError, KeyError, IndexError) as x:
                self.rep.skip(f"{m.__name__}: {x!r}")

    def iterable(self, **kinds):
        """whether the arguments can be iterated"""
        res = {"true": [], "false": []}
        for t in {x for g, e in self.flat for x in walk(g) if x.op == "inst"} | {x for x in walk(self.val or NONE) if x.op == "inst"}:
            if any("Iterable" in str(c) for c in t.a[1:]) and t.a[0].op == "sym" and len(t.a) == 2:
                for n, yes in kinds.items():
                    if t.a[0] is param(n):
                        res["true" if yes else "false"].append(t)
        return res

    def merged(self, *parts):
        res = {}
        for d in parts:
            for k, v in d.items():
                res[k] = {**res.get(k, {}), **v} if isinstance(v, dict) else [*res.get(k, []), *v]
        return res

    # ------------------------------------------------------------ judging
    def created(self, key, what, where, want, **kw):
        self.rep.count("forms")
        c = self.case(**kw)
        for g, e in self.evs:
            if e.kind == "raise" and (g is TRUE or deciding(g)):
                self.rep.find(key, f"{self.at}: {what} is refused" + ("" if g is TRUE else f" when {show(g)[:200]}"), self.at)
                return
        puts = [(g, n, v) for g, n, v in self.appends(self.evs)]
        puts += [(g, e.data[1].lstrip("_"), e.data[2]) for g, e in self.evs if e.kind == "setattr" and e.data[0] is ME and
                 any(x.op == "made" for x in walk(e.data[2]))]
        if not puts:
            if any(e.kind in ("lib", "call", "mcall") and e.data[0] is not None and any(
                    x.op == "made" for t in e.data if isinstance(t, T) for x in walk(t)) for g, e in self.evs):
                self.rep.skip(f"{self.at}: {what}")
            else:
                self.rep.find(key, f"{self.at}: {what}: nothing is added", self.at)
            return
        if len(puts) > 1:
            (self.rep.find if all(g is TRUE for g, n, v in puts) else lambda k, m, a: self.rep.skip(m))(
                key, f"{self.at}: {what}: {len(puts)} things are added", self.at)
            return
        g, n, v = puts[0]
        if g is not TRUE:
            if deciding(g):
                self.rep.find(key, f"{self.at}: {what}: added only when {show(g)[:200]}", self.at)
            else:
                self.rep.skip(f"{self.at}: {what}")
            return
        if n not in where:
            self.rep.find(key, f"{self.at}: {what}: added as {n}", self.at)
            return
        r = self.differs(v, want)
        if r is None and isinstance(self.val, T) and self.val is not NONE:
            back = c.reduce(self.val)
            r = None if back is c.reduce(v) else UNKNOWN if self.differs(back, want) is not None and back.op not in ("c", "made", "sym") else \
                self.differs(back, want) and ("result", f"what is returned is {show(back)[:200]}")
        if r is None:
            self.rep.ok()
        elif r is UNKNOWN:
            self.rep.skip(f"{self.at}: {what}")
        else:
            self.rep.find(f"{key}:{r[0]}", f"{self.at}: {what}: {r[1]}", self.at)

    def simple(self, where, cls, fields):
        f = {k: param(v) if isinstance(v, str) else mk("em", *v) if isinstance(v, tuple) else v for k, v in fields.items()}
        for k, v in f.items():
            if v.op == "em":
                f[k] = self.enum(*v.a)
        rest = KW if self.f.kwarg else None
        ts = [mk("truthy", v) for k, v in f.items() if v.op == "sym" and k != "name"]
        for zero in (False, True):
            self.created(f"{self.at}", f"arguments{' that are zero or empty' if zero else ''}", where, Made(cls, rest=rest, **f),
                         present=[v for v in f.values() if v.op == "sym"], **{"false" if zero else "true": ts})

    def enum(self, cls, name):
        return next((x for g, e in self.flat for t in self.all_terms(e) for x in walk(t)
                     if x.op == "em" and getattr(x.a[0], "name", x.a[0]) == cls and x.a[1] == name), mk("em", self.prog.cls(cls), name))

    @staticmethod
    def all_terms(e):
        todo = list(e.data)
        while todo:
            x = todo.pop()
            if isinstance(x, T):
                yield x
            elif isinstance(x, tuple):
                todo += x

    def without_refusals(self, src):
        """the events, but for the refusals of names that src does not have"""
        return [(g, e) for g, e in self.flat if e.kind != "raise" or not any(
            x is src or x.op in ("obj", "dictview", "loopvar") for x in walk(g))]

    def same_name(self, name):
        return {x for g, e in self.flat for x in walk(g) if x.op == "in" and x.a[0] is name or x.op == "eq" and name in x.a}

    def unknown(self, key, what, src, handled, **kw):
        """a name which the owner does not have is refused; names are marked in a dictionary"""
        how = None
        for sign in ("false", "true"):
            self.case(**self.merged(kw, {sign: [*handled]}))
            if any(g is TRUE and e.kind == "raise" for g, e in self.evs):
                how = sign
        if how is None:
            self.refusal(key, what, **self.merged(kw, {"false": [*handled]}))
            return
        self.rep.count("forms")
        self.case(**self.merged(kw, {how: [*handled]}))
        for g, e in self.evs:
            if e.kind == "setitem" and isinstance(e.data[2], T) and not is_const(e.data[2]) and any(x is src for x in walk(e.data[2])) \
                    and clear(e.data[2]) and not any(x.op == "elem" for x in walk(e.data[2])):
                self.rep.find(f"{key}:mark", f"{self.at}: {what}: whether it was found is taken to be {show(e.data[2])[:160]}", self.at)
                return
            if e.kind == "setitem" and isinstance(e.data[2], T) and is_const(e.data[2]) and isinstance(cval(e.data[2]), bool):
                there = any(x is src for x in walk(e.data[1]))
                if cval(e.data[2]) is ((how == "true") is there):
                    self.rep.find(f"{key}:mark", f"{self.at}: {what}: the names that are {'' if there else 'not yet '}found are marked with "
                                  f"{cval(e.data[2])}, and a name marked like this is {'refused' if there else 'accepted'}", self.at)
                    return
        self.rep.ok()

    # ------------------------------------------------------------ the forms
    def invalidation(self):
        if not self.start("SenderReceiverInterface", "create_invalidation_policy"):
            return
        ref, how = param("data_element_ref"), param("handle_invalid")
        enum, cls = self.prog.cls("HandleInvalid"), self.prog.cls("VariableDataPrototypeRef")
        where = ("invalidation_policy", "invalidation_policies")
        self.created("policy:ref", "a reference", where, Made("InvalidationPolicy", data_element_ref=ref, handle_invalid=how), kinds={ref: cls, how: enum})
        self.created("policy:text", "a path", where, Made("InvalidationPolicy", data_element_ref=Made(cls.name, value=ref), handle_invalid=how),
                     kinds={ref: "str", how: enum})
        self.refusal("policy:type", "a number as reference", kinds={ref: "int", how: enum})
        self.refusal("policy:handle", "a text as the way to handle it", kinds={ref: cls, how: "str"})

    def ports(self):
        pi, spec = param("port_interface"), param("com_spec")
        iref = mk("mcall", pi, "ref")
        for names, cls, side, more in ((("create_p_port", "create_provide_port"), "ProvidePortPrototype", "ProvidePortComSpec", []),
                                       (("create_r_port", "create_require_port"), "RequirePortPrototype", "RequirePortComSpec", ["allow_unconnected"])):
            one = self.prog.cls("ServerComSpec" if side[0] == "P" else "ClientComSpec")
            for name in names:
                if not self.start("SwComponentType", name):
                    continue
                for zero in (False, True):
                    fix = {"false" if zero else "true": [mk("truthy", param(m)) for m in more]}

                    def want(value):
                        return Made(cls, name=param("name"), port_interface_ref=iref, com_spec=value, rest=KW, **{m: param(m) for m in more})
                    self.created(f"{name}:none", "no com-spec", ("port", "ports"), want(NONE), **self.merged(fix, {"none": [spec]}))
                    self.created(f"{name}:dict", "com-spec arguments", ("port", "ports"), want(Called(f"{side}.make_from_port_interface", pi, rest=spec)),
                                 **self.merged(fix, {"kinds": {spec: "dict"}}, self.iterable(com_spec=True)))
                    self.created(f"{name}:one", "a com-spec", ("port", "ports"), want(spec),
                                 **self.merged(fix, {"kinds": {spec: one}}, self.iterable(com_spec=False)))
                each = mk("elem", spec)
                base = self.merged({"kinds": {spec: "list"}}, self.iterable(com_spec=True))
                self.listed(name, "a list of com-specs", [(e.data[0], "append") for g, e in self.case(**self.merged(base, {"kinds": {each: one}})) and self.evs
                                                          if g is TRUE and e.kind == "listop" and e.data[1] == "append" and e.data[2] == (each,)])
                self.kept(name, "a list of com-specs", lambda x: x is each)
                pair = self.merged(base, {"kinds": {each: "tuple"}, "lens": {each: 2}})
                self.case(**pair)
                self.listed(name, "a list of names and arguments", [e for g, e in self.evs if g is TRUE and e.kind == "setitem" and
                                                                    e.data[1] is mk("item", each, C(0)) and e.data[2] is mk("item", each, C(1))])
                self.kept(name, "a list of names and arguments", lambda x: any(
                    z.op == "call" and z.a[0] == f"{side}.make_from_port_interface" and any(y is mk("kw", "port_interface", pi) for y in z.a[1:])
                    for z in walk(x)))
                self.refusal(f"{name}:entry", "a list of texts", **self.merged(base, {"kinds": {each: "str"}}))
                self.refusal(f"{name}:entry", "a list of triples", **self.merged(base, {"kinds": {each: "tuple"}, "lens": {each: 3}}))
        if self.start("SwComponentType", "create_pr_port"):
            p, r = param("provided_com_spec"), param("required_com_spec")
            forms = {"none": None, "dict": "dict", "one": "one"}
            for a in forms:
                for b in forms:
                    kinds, none, vals = {}, [], {}
                    for t, form, side, one in ((p, a, "ProvidePortComSpec", "ServerComSpec"), (r, b, "RequirePortComSpec", "ClientComSpec")):
                        if form == "none":
                            none.append(t)
                            vals[t] = NONE
                        else:
                            kinds[t] = "dict" if form == "dict" else self.prog.cls(one)
                            vals[t] = Called(f"{side}.make_from_port_interface", pi, rest=t) if form == "dict" else t
                    self.created("create_pr_port", f"provided com-spec {a}, required com-spec {b}", ("port", "ports"), Made(
                        "PRPortPrototype", name=param("name"), port_interface_ref=iref, provided_com_spec=vals[p], required_com_spec=vals[r], rest=KW),
                        kinds=kinds, none=none)

    def kept(self, name, what, good):
        """whether the com-specs of the new port include the given ones"""
        self.rep.count("forms")
        v = next((dict((x.a[0], x.a[1]) for x in t.a[1:] if x.op == "kw").get("com_spec") for g, n, t in self.appends(self.evs)
                  if t.op == "made"), None)
        if v is param("com_spec"):
            self.rep.ok()
        elif v is None or v.op != "snap" or v.a[0] != "list" or any(not isinstance(x, T) or x.op != "gi" for x in v.a[2:]) or v.a[1] not in (None, NONE):
            self.rep.skip(f"{self.at}: {what}")
        elif any(g is not FALSE and good(x) for g, x in ((y.a[0], y.a[1]) for y in v.a[2:])):
            self.rep.ok()
        elif all(clear(y.a[1]) or any(z.op == "call" and "make_from_port_interface" in z.a[0] for z in walk(y.a[1])) for y in v.a[2:]):
            self.rep.find(f"{name}:kept", f"{self.at}: {what}: the com-specs are dropped; the port gets {show(v)[:200]}", self.at)
        else:
            self.rep.skip(f"{self.at}: {what}")

    def listed(self, name, what, found):
        self.rep.count("forms")
        if found:
            self.rep.ok()
        else:
            self.rep.skip(f"{self.at}: {what}")

    def behavior(self):
        for cls in ("ApplicationSoftwareComponentType",):
            if self.start(cls, "create_internal_behavior"):
                n = param("name")
                self.created("behavior:named", "a name", ("internal_behavior",), Made("SwcInternalBehavior", name=n, rest=KW), kinds={n: "str"},
                             true=[mk("truthy", n)])
                default = next((x for g, e in self.flat for t in self.all_terms(e) for x in walk(t) if x.op == "fstr" and
                                set(x.a) == {attr(ME, "name"), C("_InternalBehavior")}), None)
                if default is None:
                    self.rep.skip(f"{self.at}: the default name")
                else:
                    self.created("behavior:default", "no name", ("internal_behavior",), Made("SwcInternalBehavior", name=default, rest=KW), none=[n])
        if self.start("SwcInternalBehavior", "create_exclusive_area"):
            self.simple(("exclusive_area", "exclusive_areas"), "ExclusiveArea", {"name": "name"})

    def runnables(self):
        if not self.start("SwcInternalBehavior", "create_runnable"):
            return
        names = ("can_be_invoked_concurrently", "minimum_start_interval", "activation_reasons", "exclusive_area_nesting_order", "reentrancy_level",
                 "runs_insides", "sw_addr_method")
        p = {n: param(n) for n in names}
        sym, cel = param("symbol"), param("can_enter_leave")
        areas = attr(ME, "exclusive_areas")
        area = mk("elem", areas)
        named = self.same_name(attr(area, "name"))
        handled = {x for g, e in self.flat for x in walk(g) if x.op == "truthy" and x.a[0].op == "item" and "dictview" in {y.op for y in walk(x)}}
        where = ("runnable", "runnables")
        each = mk("elem", cel)
        ref = self.prog.cls("ExclusiveAreaRef")
        forms = [("no symbol", {"none": [sym]}, NONE), ("a symbol", {"kinds": {sym: "str"}, "true": [mk("truthy", sym)]}, sym),
                 ("an empty symbol", {"kinds": {sym: "str"}, "lens": {sym: 0}, "vals": {sym: ""}, "false": [mk("truthy", sym)]}, param("name"))]
        lists = [("no areas", {"none": [cel]}, NONE),
                 ("a reference to an area", self.merged({"kinds": {cel: ref}, "true": [mk("truthy", cel)]}, self.iterable(can_enter_leave=False)), cel),
                 ("references to areas", self.merged({"kinds": {cel: "list", each: ref}, "true": [mk("truthy", cel)]}, self.iterable(can_enter_leave=True)), cel),
                 ("the name of an area", self.merged({"kinds": {cel: "str"}}, self.iterable(can_enter_leave=True)), Items(each=mk("mcall", area, "ref"))),
                 ("the names of areas", self.merged({"kinds": {cel: "list", each: "str"}}, self.iterable(can_enter_leave=True)),
                  Items(each=mk("mcall", area, "ref")))]
        flat, self.flat = self.flat, self.without_refusals(areas)
        for zero in (False, True):
            fix = {"false" if zero else "true": [mk("truthy", t) for t in p.values()]}
            for word, facts, symbol in forms:
                for text, more, value in lists:
                    want = Made("RunnableEntity", name=param("name"), symbol=symbol, can_enter_leave=value, rest=KW, **p)
                    self.created(f"runnable:{text}", f"{word}, {text}{', other arguments zero or empty' if zero else ''}", where, want,
                                 **self.merged(fix, facts, more, {"true": [*named, *handled]}))
        self.flat = flat
        if handled:
            for text, more, value in lists[3:]:
                self.unknown("runnable:unknown", f"{text}, one of which does not exist", areas, handled, **self.merged(more, {"true": [*named]}))

    def options(self):
        if not self.start("SwcInternalBehavior", "create_port_api_options"):
            return
        pn, swc = param("port_name"), attr(ME, "parent")
        ports = attr(swc, "ports")
        port = mk("elem", ports)
        named = self.same_name(attr(port, "name"))
        handled = {x for g, e in self.flat for x in walk(g) if x.op == "truthy" and x.a[0].op == "item" and "dictview" in {y.op for y in walk(x)}}
        ref = mk("mcall", port, "ref")
        names = ("enable_take_address", "indirect_api", "error_handling", "port_arg_values", "supported_features", "transformer_status_forwarding")
        p = {n: param(n) for n in names}
        every = mk("eq", pn, C("*"))
        lens = {x for g, e in self.flat for x in walk(g) if x.op == "truthy" and any(y.op in ("loopvar", "obj") for y in walk(x))} - handled
        for word, facts in (("a name", {"kinds": {pn: "str"}, "false": [every], "true": self.iterable(port_name=True)["true"]}),
                            ("every port", {"kinds": {pn: "str"}, "true": [every, *self.iterable(port_name=True)["true"]]}),
                            ("a list of names", {"kinds": {pn: "list"}, "false": [every], "true": self.iterable(port_name=True)["true"]})):
            base = self.merged(facts, {"kinds": {port: self.prog.cls("ProvidePortPrototype")}, "present": [ref]})
            flat, self.flat = self.flat, self.without_refusals(ports)
            for zero in (False, True):
                fix = {"false" if zero else "true": [mk("truthy", t) for t in p.values()]}
                self.created("options", f"{word}{', options that are off or empty' if zero else ''}", ("port_api_option", "port_api_options"),
                             Made("PortApiOption", port=ref, **p), **self.merged(base, fix, {"true": [*named, *handled, *lens]}))
            self.flat = flat
            if named:
                self.rep.count("forms")
                self.case(**self.merged(base, {"false": [*named], "true": [*handled, *lens]}))
                if self.appends(self.evs):
                    self.rep.find("options:unnamed", f"{self.at}: {word}: options are added for a port that is not named", self.at)
                else:
                    self.rep.ok()
            if handled and word != "every port":
                self.unknown("options:unknown", f"{word} which is not that of a port", ports, handled, **self.merged(base, {"true": [*named, *lens]}))
        self.refusal("options:type", "a number instead of a name", **self.merged({"kinds": {pn: "int"}}, self.iterable(port_name=False)))


NAMED = {"name": "name"}
ARGUMENT = {**NAMED, "server_arg_impl_policy": "server_arg_impl_policy"}
CREATED = {
    ("ModeDeclarationGroup", "create_mode_declaration"): (("mode_declaratation", "mode_declaration", "mode_declarations"), "ModeDeclaration", {**NAMED, "value": "value"}),
    ("SenderReceiverInterface", "create_data_element"): (("data_element", "data_elements"), "VariableDataPrototype", {**NAMED, "init_value": "init_value"}),
    ("NvDataInterface", "create_data_element"): (("data_element", "data_elements"), "VariableDataPrototype", {**NAMED, "init_value": "init_value"}),
    ("ParameterInterface", "create_parameter"): (("parameter", "parameters"), "ParameterDataPrototype", {**NAMED, "init_value": "init_value"}),
    ("ClientServerOperation", "create_argument"): (("argument", "arguments"), "ArgumentDataPrototype", {**ARGUMENT, "direction": "direction"}),
    ("ClientServerOperation", "create_in_argument"): (("argument", "arguments"), "ArgumentDataPrototype", {**ARGUMENT, "direction": ("ArgumentDirection", "IN")}),
    ("ClientServerOperation", "create_out_argument"): (("argument", "arguments"), "ArgumentDataPrototype", {**ARGUMENT, "direction": ("ArgumentDirection", "OUT")}),
    ("ClientServerOperation", "create_inout_argument"): (("argument", "arguments"), "ArgumentDataPrototype", {**ARGUMENT, "direction": ("ArgumentDirection", "INOUT")}),
    ("ClientServerOperation", "create_possible_error_ref"): (("possible_error_ref", "possible_error_refs"), "ApplicationErrorRef", {"value": "value"}),
    ("ClientServerInterface", "create_operation"): (("operation", "operations"), "ClientServerOperation", {
        **NAMED, **{n: n for n in ("arguments", "diag_arg_integrity", "fire_and_forget", "possible_error_refs")}}),
    ("ClientServerInterface", "create_possible_error"): (("possible_errors", "possible_error"), "ApplicationError", {**NAMED, "error_code": "error_code"}),
    ("ModeSwitchInterface", "create_mode_group"): (("mode_group",), "ModeDeclarationGroupPrototype", {
        **NAMED, "type_ref": "type_ref", "calibration_access": "calibration_access"}),
}


def run(s, rep):
    Owners(s, rep).run()
