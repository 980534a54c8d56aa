"""
Templates: an element template applied in a workspace creates its element once, in the package of
its role, after the templates it depends on. Workspace.apply is followed symbolically with the
template's own methods and the element library opaque.
"""
from sa.terms import T, mk, C, NONE, TRUE, FALSE, attr, conj, disj, neg, walk, subst, show
from sa.interp import Ev
from sa.methods import MethodAnalysis, ME
from sa.ctor import leaves, param
from rules.documents import LibPolicy, Flows, Unclear, norm, parts, part_of, unclear
from rules.roles import Base, plain

OPAQUE = ("apply", "get_package_ref_by_role")


class TemplatePolicy(LibPolicy):
    """applying another template and the reference of a role are events as well"""

    def call(self, ip, f, selfterm, pos, kws, st, node):
        if f.cls is not None and f.cls.name == "Workspace" and f.name in OPAQUE and len(ip.frames) > 1:
            ip.emit("lib", f, selfterm, tuple(pos), tuple(sorted(kws.items())), node=node, st=st)
            return mk("mcall", selfterm, f.name, *pos, *[mk("kw", k, v) for k, v in sorted(kws.items())])
        return super().call(ip, f, selfterm, pos, kws, st, node)


def tidy(e):
    """an event with its terms in one form"""
    def f(x):
        return norm(x) if isinstance(x, T) else tuple(f(y) for y in x) if isinstance(x, tuple) else x
    return Ev(e.kind, f(tuple(e.data)), e.line, e.func, e.pc)


class Templates(Base):
    def __init__(self, s, rep):
        super().__init__(s, rep)
        self.ma = MethodAnalysis(s.prog, s.ctors, TemplatePolicy)

    def run(self):
        self.ws = self.prog.cls("Workspace")
        r = self.method(self.ws, "apply")
        if r is not None:
            self.fl.flat = [(norm(g), tidy(e)) for g, e in self.fl.flat]
            self.fl.made = {k: [tuple(norm(y) if isinstance(y, T) else y for y in x) for x in v] for k, v in self.fl.made.items()}
            self.apply(r)
        self.template()

    # ------------------------------------------------------------ Workspace.apply
    def apply(self, r):
        t = param("template")
        kw = mk("kw", "**", param("**kwargs"))
        self.is_elem = mk("inst", t, mk("cls", self.prog.cls("ElementTemplate")))
        self.is_gen = mk("inst", t, mk("cls", self.prog.cls("GenericTemplate")))
        ref = mk("mcall", ME, "get_package_ref_by_role", attr(t, "namespace_name"), attr(t, "package_role"))
        pkg = mk("mcall", ME, "make_packages", ref)
        old = mk("mcall", pkg, "find", attr(t, "element_name"))
        is_pkg = mk("inst", pkg, mk("cls", self.prog.cls("Package")))
        self.t, self.pkg, self.old, self.is_pkg = t, pkg, old, is_pkg
        is_own = lambda p: p in (self.is_elem, neg(self.is_gen), is_pkg, attr(t, "x")) or p is mk("nn", pkg)
        self.is_own = is_own
        creates = [(g, e) for g, e in self.calls("create") if e.data[0] is t]
        self.rep.count("template steps")
        new = None
        self.judged = False
        if not creates:
            if any(True for _ in self.calls("create")) or any(e.kind == "mcall" and e.data[0] is t for g, e in self.fl.flat):
                self.rep.skip("apply: where the element is created")
            else:
                self.rep.find("create", "no element is created for a template", self.at)
        elif len(creates) > 1:
            g = [x[0] for x in creates]
            if conj(g[0], g[1]) is not FALSE and not unclear(conj(*g)):
                self.rep.find("create", "the element of a template is created more than once", self.at)
            else:
                self.rep.skip("apply: the element is created at several places")
        else:
            g, e = creates[0]
            new = self.create(g, e)
        if new is not None:
            self.append(new)
            self.result(r, new, kw)
        self.generic()
        self.depends(creates)
        self.refuse(new)

    def calls(self, name):
        return [(g, e) for g, e in self.fl.flat if e.kind == "mcall" and e.data[1] == name]

    def libs(self, name):
        return [(g, e) for g, e in self.fl.flat if e.kind == "lib" and e.data[0].name == name]

    def create(self, g, e):
        absent = neg(mk("nn", self.old))
        missing = neg(mk("truthy", self.old))
        if any(x is self.old for x in walk(g)):
            if absent not in parts(g) and missing not in parts(g):
                self.rep.skip(f"apply: the element is created when {show(g)[:200]}")
                return None
            self.extra("create:condition", "the element of a template", g, (absent, missing), self.is_own, verb="is created")
        elif plain(g) and not any(x.op == "mcall" and x.a[1] == "find" or x.op == "in" for x in walk(g)):
            self.rep.find("create:twice", "the element of a template is created although the package has it", self.at)
        else:
            other = [x for x in walk(g) if x.op == "mcall" and x.a[1] == "find"]
            if other and plain(g):
                self.rep.find("create:found", f"the element of a template is looked up as {show(other[0])[:200]}", self.at)
            else:
                self.rep.skip(f"apply: the element is created when {show(g)[:200]}")
            return None
        pos = list(e.data[2])
        kws = dict(e.data[3])
        names = ("package", "workspace", "dependencies")
        args = dict(zip(names, pos))
        args.update({k: v for k, v in kws.items() if k in names})
        for n, want in (("package", self.pkg), ("workspace", ME)):
            v = args.get(n)
            if v is want:
                self.rep.ok()
            elif v is not None and plain(v) or v is None:
                self.rep.find(f"create:{n}", f"create receives {show(v)[:160] if v is not None else 'nothing'} as its {n}", self.at)
            else:
                self.rep.skip(f"apply: {n} of create is {show(v)[:160]}")
        if kws.get("**") is param("**kwargs"):
            self.rep.ok()
        elif any(isinstance(x, T) and param("**kwargs") in set(walk(x)) for x in [*pos, *kws.values()]):
            self.rep.skip("apply: arguments of create")
        else:
            self.rep.find("create:arguments", "create does not receive the arguments given to apply", self.at)
        self.judged = True
        self.dep_arg = args.get("dependencies")
        return mk("mcall", self.t, "create", *pos, *[mk("kw", k, v) for k, v in sorted(kws.items())])

    def is_new(self, x):
        return x.op == "mcall" and x.a[0] is self.t and x.a[1] == "create"

    def append(self, new):
        self.rep.count("template steps")
        want = mk("truthy", attr(self.t, "append_to_package"))
        puts = [(g, e) for g, e in self.libs("append") if len(e.data[2]) == 1]
        own = [(g, e) for g, e in puts if self.is_new(e.data[2][0]) or any(self.is_new(x) for _, x in leaves(e.data[2][0]))]
        if not own:
            if puts:
                self.rep.skip("apply: what is put into the package")
            else:
                self.rep.find("append", "the created element is not put into the package", self.at)
            return
        if len(own) > 1:
            g = conj(own[0][0], own[1][0])
            if g is FALSE or unclear(g):
                self.rep.skip("apply: the element is put into packages at several places")
            else:
                self.rep.find("append:twice", "the created element is put into a package twice", self.at)
            return
        g, e = own[0]
        if e.data[1] is self.pkg:
            self.rep.ok()
        elif plain(e.data[1]):
            self.rep.find("append:package", f"the created element is put into {show(e.data[1])[:160]}", self.at)
        else:
            self.rep.skip(f"apply: package {show(e.data[1])[:160]}")
        fresh = lambda p: p in (neg(mk("nn", self.old)), neg(mk("truthy", self.old))) or any(
            p is c for c in (mk("nn", new),)) or p.op == "inst" and self.is_new(p.a[0])
        off = subst(g, {want: FALSE})
        if off is not FALSE:
            if unclear(off):
                self.rep.skip(f"apply: the element is put into the package when {show(g)[:160]}")
            else:
                self.rep.find("append:always", "the created element is put into the package although append_to_package is not set", self.at)
            return
        self.extra("append:condition", "the created element", g, (want,), lambda p: self.is_own(p) or fresh(p), verb="is put into the package")

    def result(self, r, new, kw):
        """apply returns the element"""
        self.rep.count("template steps")
        for g, x in leaves(norm(r.value)):
            own = mk("nn", self.old)
            if x is self.old and (own in parts(g) or mk("truthy", self.old) in parts(g)) or self.is_new(x):
                self.rep.ok()
            elif x.op == "mcall" and x.a[0] is self.t and x.a[1] == "apply":
                if conj(g, self.is_elem) is FALSE or self.is_gen in parts(g):
                    self.rep.ok()
                else:
                    self.rep.skip(f"apply returns {show(x)[:120]} when {show(g)[:120]}")
            elif unclear(x) or unclear(g):
                self.rep.skip(f"apply returns {show(x)[:120]}")
            else:
                self.rep.find("result", f"apply returns {show(x)[:160]} when {show(g)[:200]}", self.at)

    def generic(self):
        self.rep.count("template steps")
        gen = [(g, e) for g, e in self.calls("apply") if e.data[0] is self.t]
        if not gen:
            self.rep.find("generic", "apply does not apply a generic template", self.at)
            return
        g, e = gen[0]
        self.extra("generic:condition", "a generic template", g, (self.is_gen,), lambda p: p is neg(self.is_elem), verb="is applied")
        pos, kws = list(e.data[2]), dict(e.data[3])
        w = pos[0] if pos else kws.get("workspace")
        if w is ME and kws.get("**") is param("**kwargs"):
            self.rep.ok()
        else:
            self.rep.find("generic:arguments", "a generic template is applied without the workspace or the arguments", self.at)

    def depends(self, creates):
        self.rep.count("template steps")
        deps = attr(self.t, "depends")
        each = mk("elem", deps)
        ap = [(i, g, e) for i, (g, e) in enumerate(self.fl.flat) if e.kind == "lib" and e.data[0].name == "apply" and e.data[1] is ME]
        own = [(i, g, e) for i, g, e in ap if list(e.data[2]) == [each]]
        if not own:
            if any(part_of(x) for i, g, e in ap for x in walk(e.data[2][0]) if x.op == "slice" or x.op == "elem" and part_of(x.a[0])):
                self.rep.find("depends:part", "only some of the templates an element depends on are applied", self.at)
            elif ap:
                self.rep.skip("apply: which templates are applied first")
            else:
                self.rep.find("depends", "the templates an element depends on are not applied", self.at)
            return
        i, g, e = own[0]
        have = (mk("nn", deps), mk("truthy", deps))
        self.extra("depends:condition", "a template the element depends on", g, (mk("loop", deps), *have), self.is_own, verb="is applied")
        for g2, c in creates:
            at = next(k for k, (gg, x) in enumerate(self.fl.flat) if x is c)
            if at > i:
                self.rep.ok()
            else:
                self.rep.find("depends:order", "the templates an element depends on are applied after the element is created", self.at)
        arg = getattr(self, "dep_arg", None)
        if arg is None:
            if creates and self.judged:
                self.rep.find("depends:map", "create does not receive the elements of the templates it depends on", self.at)
            return
        res = mk("mcall", ME, "apply", each)
        for g2, x in leaves(arg):
            if x is NONE:
                if any(conj(g2, h) is FALSE for h in have):
                    self.rep.ok()
                elif unclear(g2):
                    self.rep.skip(f"apply: no dependencies when {show(g2)[:120]}")
                else:
                    self.rep.find("depends:none", f"create receives no dependencies when {show(g2)[:160]}", self.at)
                continue
            try:
                ents = self.fl.local(x)
            except Unclear as ex:
                self.rep.skip(f"apply: {ex}")
                continue
            if ents is None:
                self.rep.skip(f"apply: dependencies {show(x)[:120]}")
                continue
            if not ents and any(conj(g2, h) is not FALSE for h in have):
                self.rep.find("depends:map", "create does not receive the elements of the templates it depends on", self.at)
            for g3, k, v in ents:
                if k is None:
                    self.rep.skip("apply: dependencies are not a mapping")
                    continue
                self.rep.count("dependencies")
                self.extra("depends:entry", "the entry of a dependency", g3, (mk("loop", deps), *have),
                           lambda p: self.is_own(p) or p.op in ("inst",) and p.a[0] is res, verb="is stored")
                want = mk("mcall", res, "ref")
                if v is res and (k is mk("call", "str", want) or k is mk("fstr", want)):
                    self.rep.ok()
                elif unclear(k) or unclear(v) or any(x.op == "phi" for x in walk(v)):
                    self.rep.skip(f"apply: dependency {show(k)[:80]}: {show(v)[:80]}")
                else:
                    self.rep.find("depends:key", f"a dependency is stored as {show(k)[:120]}: {show(v)[:120]}", self.at)

    def refuse(self, new):
        """what is refused: no element, something else than an element, a template of another kind"""
        self.rep.count("template steps")
        res = mk("mcall", ME, "apply", mk("elem", attr(self.t, "depends")))

        def allowed(p):
            q = p.a[0] if p.op == "not" else None
            if q is None:
                return False
            if q.op in ("inst", "nn") and q.a[0].op == "mcall" and q.a[0].a[1] in ("make_packages", "apply"):
                return True
            if q.op in ("nn", "truthy", "inst") and self.is_new(q.a[0]):
                return q.op != "truthy"
            if q.op == "inst" and q.a[0] in (self.pkg, res, self.t) or q.op == "nn" and q.a[0] in (self.pkg, res, self.t):
                return True
            return any(x.op == "hasattr" or x.op == "call" and x.a[0] == "hasattr" for x in walk(q)) and any(x is res for x in walk(q))
        self.refusals("apply", "a template", allowed)
        if new is None:
            return
        refused = disj(*[g for g, e in self.fl.flat if e.kind == "raise"])
        el = mk("inst", new, mk("cls", self.prog.cls("ARElement")))
        kinds = [x for x in walk(refused) if x.op == "inst" and self.is_new(x.a[0])]
        if el in kinds or mk("nn", new) in set(walk(refused)):
            self.rep.ok()
        elif kinds or unclear(refused):
            self.rep.skip("apply: which results of create are refused")
        else:
            self.rep.find("apply:accepted", "apply accepts a create method that returns no element", self.at)

    # ------------------------------------------------------------ the template itself
    def template(self):
        cls = self.prog.cls("ElementTemplate")
        self.ma = MethodAnalysis(self.s.prog, self.s.ctors)
        r = self.method(cls, "ref")
        if r is not None:
            self.rep.count("template steps")
            w = mk("mcall", param("workspace"), "get_package_ref_by_role", attr(ME, "namespace_name"), attr(ME, "package_role"))
            want = mk("fstr", w, C("/"), attr(ME, "element_name"))
            joined = ("posixpath.join", "os.path.join")
            bad = [(g, x) for g, x in leaves(norm(r.value)) if not (self.flatten(x) == list(want.a)
                                                             or x.op == "call" and x.a[0] in joined and x.a[1:] == (w, attr(ME, "element_name")))]
            if not bad:
                self.rep.ok()
            elif plain(bad[0][1]):
                self.rep.find("ref", f"the reference of a template's element is {show(bad[0][1])[:200]}", self.at)
            else:
                self.rep.skip(f"ref of a template: {show(r.value)[:160]}")
        r = self.method(cls, "__init__")
        if r is not None:
            for a in ("element_name", "namespace_name", "package_role", "depends", "append_to_package"):
                self.kept(a, param(a))

    @staticmethod
    def flatten(x):
        res = []
        for y in (x.a if x.op == "fstr" else (x,)):
            if y.op == "fstr":
                res += Templates.flatten(y)
            elif y.op == "call" and y.a[0] == "str":
                res.append(y.a[1])
            else:
                res.append(y)
        return res

    def kept(self, a, p):
        sets = [(g, e.data[2]) for g, e in self.fl.flat if e.kind == "setattr" and e.data[0] is ME and e.data[1] == a]
        if not sets:
            self.rep.skip(f"ElementTemplate.{a} is not set in a recognised way")
            return
        self.rep.count("template attributes")
        for g, v in sets[-1:]:
            for g2, x in leaves(v, g):
                if g2 is FALSE:
                    continue
                y = x
                if y.op in ("snap", "obj"):
                    try:
                        ents = self.fl.local(y)
                    except Unclear:
                        ents = None
                    if ents is not None and len(ents) == 1 and ents[0][2] is mk("elem", p):
                        extra = [q for q in parts(ents[0][0]) if q not in (mk("loop", p), *parts(g2))]
                        if not extra:
                            y = p
                while y.op == "call" and y.a[0] in ("list", "tuple") and len(y.a) == 2:
                    y = y.a[1]
                if y is p or x is NONE and conj(g2, mk("truthy", p)) is FALSE and a == "depends" or \
                        x is NONE and conj(g2, mk("nn", p)) is FALSE:
                    self.rep.ok()
                elif unclear(x) or x.op not in ("c", "sym", "mcall", "fstr"):
                    self.rep.skip(f"ElementTemplate.{a}: {show(x)[:120]}")
                else:
                    self.rep.find(f"attribute:{a}", f"{a} of a template is {show(x)[:120]}", self.at)


def run(s, rep):
    Templates(s, rep).run()
