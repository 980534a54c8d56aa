"""
Namespaces, package maps and behavior settings: what is configured is what is looked up later.
The methods are evaluated symbolically with the element library opaque; the object a namespace is
stored as is put in place of the lookup, so that the reference of a role is described in terms of
the values the namespace was created with.
"""
import ast
from rules import enums
from sa.terms import T, mk, C, NONE, TRUE, FALSE, attr, conj, neg, walk, subst, show, is_const, cval
from sa.methods import MethodAnalysis, ME
from sa.ctor import leaves, param
from rules import documents
from rules.documents import LibPolicy, Flows, Unclear, parts, unclear

JOIN = ("posixpath.join", "os.path.join")
NORM = ("posixpath.normpath", "os.path.normpath")
MAP = "str_to_enum_map"


def norm(t):
    """accesses to a mapping in one form, however it is iterated"""
    t = documents.norm(t)
    for _ in range(3):
        m = {}
        for x in walk(t):
            if x.op == "elem" and x.a[0].op in ("sym", "get", "val"):
                m[x] = mk("key", x.a[0])
            elif x.op == "item" and len(x.a) == 2 and isinstance(x.a[1], T) and x.a[1].op == "key" and x.a[1].a[0] is x.a[0]:
                m[x] = mk("val", x.a[0])
            elif x.op == "get" and isinstance(x.a[1], T) and x.a[1].op == "key" and x.a[1].a[0] is x.a[0]:
                m[x] = mk("val", x.a[0])
        if not m:
            break
        t = documents.norm(subst(t, m))
    return t


def atoms(t):
    if t.op in ("and", "or", "not"):
        return {a for x in t.a for a in atoms(x)}
    return {t}


def plain(t):
    """a term made only of accesses the rule understands"""
    return not unclear(t) and all(x.op in ("sym", "c", "attr", "get", "val", "key", "item", "elem", "pair", "mcall", "fstr", "slice",
                                           "gconst", "kw", "cls", "enum", "not", "and", "or", "nn", "truthy", "eq", "in", "inst", "loop",
                                           "phi", "ext", "tup", "param", "getattr", "hasattr", "bin", "cmp", "lt", "le")
                                  or x.op == "call" and x.a[0] in (*JOIN, *NORM, "str", "len", "getattr", "hasattr", "open", "tomllib.load")
                                  for x in walk(t))


class Base:
    def __init__(self, s, rep):
        self.s = s
        self.rep = rep
        self.prog = s.prog
        self.ma = MethodAnalysis(s.prog, s.ctors, LibPolicy)

    def method(self, cls, name):
        f = cls.lookup(name)
        if f is None:
            self.rep.skip(f"{cls.name}.{name} does not exist")
            return None
        r = self.ma.run(cls, f)
        if r.failed:
            self.rep.skip(f"{cls.name}.{name}: {r.failed}")
            return None
        self.at = f"{cls.name}.{name}"
        self.r = r
        self.fl = Flows(r)
        return r

    def extra(self, key, what, g, want=(), allowed=lambda p: False, verb="happens"):
        """g holds whenever `want` holds"""
        bad = []
        for p in parts(norm(g)):
            if p in want or allowed(p):
                continue
            if p.op == "or":
                # a condition with what is given anyway
                p = subst(p, {a: TRUE if a in want or allowed(a) else FALSE for a in atoms(p)
                              if (a in want or allowed(a)) != (neg(a) in want or allowed(neg(a)))})
                if p is TRUE:
                    continue
            bad.append(p)
        if not bad:
            self.rep.ok()
            return True
        if any(unclear(p) or p.op == "or" and not plain(p) for p in bad):
            self.rep.skip(f"{what}: condition {show(conj(*bad))[:160]}")
        else:
            self.rep.find(key, f"{what} {verb} only when {show(conj(*bad))[:200]}", self.at)
        return False

    def refusals(self, key, what, allowed):
        """nothing is refused but what `allowed` accepts"""
        for g, e in self.fl.flat:
            if e.kind != "raise":
                continue
            ps = parts(norm(g))
            if any(allowed(p) for p in ps) or norm(g).op == "or" and all(
                    any(allowed(q) for q in parts(p)) for p in norm(g).a):
                self.rep.ok()
            elif any(unclear(p) for p in ps):
                self.rep.skip(f"{what}: refused when {show(g)[:160]}")
            else:
                self.rep.find(key + ":refused", f"{what} is refused when {show(conj(*ps))[:200]}", self.at)

    def stores(self, coll):
        """(guard, key, value) of the entries put into a mapping held by the object"""
        res = []
        for g, e in self.fl.flat:
            if e.kind == "setitem" and e.data[0] is coll:
                res.append((g, e.data[1], e.data[2]))
            elif e.kind == "mcall" and e.data[0] is coll and e.data[1] == "setdefault" and len(e.data[2]) == 2:
                res.append((conj(g, neg(mk("in", e.data[2][0], coll))), *e.data[2]))
        return res


def wrong_type(*vals):
    """refused for the type of a given value"""
    def f(p):
        q = p.a[0] if p.op == "not" else None
        return q is not None and q.op == "inst" and any(q.a[0] is v for v in vals)
    return f


class Roles(Base):
    def run(self):
        self.ws = self.prog.cls("Workspace")
        self.enum = self.prog.cls("PackageRole")
        made = self.create()
        if made is not None:
            self.lookup(*made)
        self.configured()
        self.package_map()

    # ------------------------------------------------------------ namespaces
    def create(self):
        """the object stored for a namespace, with the values it was created with"""
        r = self.method(self.ws, "create_namespace")
        if r is None:
            return None
        ns = attr(ME, "namespaces")
        st = self.stores(ns)
        if not st:
            if any(e.kind == "mcall" and e.data[0] is ns or e.kind == "setattr" and e.data[0] is ME for g, e in self.fl.flat):
                self.rep.skip("create_namespace: how the namespace is stored")
            else:
                self.rep.find("namespace:stored", "create_namespace stores no namespace", self.at)
            return None
        if len(st) > 1:
            self.rep.skip("create_namespace stores at several places")
            return None
        g, k, v = st[0]
        self.rep.count("namespaces stored")
        self.extra("namespace:stored", "a namespace", g, verb="is stored")
        self.refusals("namespace", "a namespace", lambda p: wrong_type(*[param(x) for x in ("name", "package_map", "base_ref")])(p)
                      or self.bad_role(p))
        if k is param("name"):
            self.rep.ok()
        elif plain(k):
            self.rep.find("namespace:key", f"a namespace is stored under {show(k)[:120]}", self.at)
        else:
            self.rep.skip(f"create_namespace: key {show(k)[:120]}")
        if v.op != "obj" or v not in r.heap:
            if plain(v):
                self.rep.find("namespace:value", f"{show(v)[:120]} is stored as the namespace", self.at)
            else:
                self.rep.skip(f"create_namespace: value {show(v)[:120]}")
            return None
        return r, self.fl, v

    def bad_role(self, p):
        """a name that is not the name of a role"""
        q = p.a[0] if p.op == "not" else p
        return q.op == "exc" or q.op == "in" and any(x.op == "gconst" for x in walk(q))

    def lookup(self, r, fl, obj):
        """the reference of a role, in the terms of the values the namespace was created with"""
        q = self.method(self.ws, "get_package_ref_by_role")
        if q is None:
            return
        ns, role = param("namespace_name"), param("role")
        self.refusals("role", "the reference of a role", lambda p: p.op == "exc" or wrong_type(role, ns)(p) or self.is_missing(p))
        v = norm(q.value)
        own = mk("get", attr(ME, "namespaces"), ns)
        own2 = mk("item", attr(ME, "namespaces"), ns)
        attrs = r.heap[obj].entries
        m = {}
        for x in walk(v):
            if x.op == "attr" and (x.a[0] is own or x.a[0] is own2) and x.a[1] in attrs:
                m[x] = attrs[x.a[1]]
        v = subst(v, m)
        # the entry of the role
        table = next((t for t in attrs.values() if isinstance(t, T) and t.op == "obj" and t in r.heap and r.heap[t].kind == "dict"), None)
        hit = [x for x in walk(v) if x.op in ("item", "get", "dget") and len(x.a) >= 2 and x.a[1] is role]
        hit = [x for x in hit if x.a[0] is table] if table is not None else []
        if len(set(hit)) != 1:
            if not hit and plain(v):
                self.rep.find("role:value", f"the reference of a role is {show(v)[:160]}, which does not depend on the role", self.at)
            else:
                self.rep.skip(f"get_package_ref_by_role: {show(v)[:200]}")
            return
        try:
            ents = fl.local(table)
        except Unclear as ex:
            self.rep.skip(f"namespace: {ex}")
            return
        given = param("package_map")
        key, val = mk("key", given), mk("val", given)
        self.at = "Namespace"
        if not ents:
            self.rep.skip("namespace: the roles are not recognised")
            return
        covered = []
        for g, k, x in ents:
            self.rep.count("role entries")
            g, k, x = norm(g), norm(k), norm(x)
            bang = self.bang(mk("tup", g, k), key)
            allowed = (lambda p: p is bang or p.op == "not" and p.a[0] is bang) if bang is not None else (lambda p: False)
            if not self.extra("role:stored", "the entry of a role", g, (mk("loop", given),), allowed, verb="is stored"):
                return
            for gk, kk in leaves(k):
                c = conj(*[p for p in parts(g) if p.op != "loop"], gk)
                if c is FALSE:
                    continue
                covered.append(c)
                self.role_key(c, kk, key, bang)
            self.role_path(norm(subst(v, {hit[0]: x})), val)

    @staticmethod
    def is_missing(p):
        q = p.a[0] if p.op == "not" else None
        return q is not None and (q.op == "in" or q.op == "nn" and q.a[0].op in ("get", "dget", "item"))

    def bang(self, t, key):
        """the condition 'the name begins with !'"""
        for x in walk(t):
            if x.op == "truthy" and x.a[0].op == "mcall" and x.a[0].a[0] is key and x.a[0].a[1] == "startswith" \
                    and len(x.a[0].a) == 3 and x.a[0].a[2] is C("!"):
                return x
            if x.op == "eq" and any(isinstance(y, T) and y is C("!") for y in x.a) and any(
                    isinstance(y, T) and y.op in ("slice", "item", "idx", "sub", "get") and y.a[0] is key for y in x.a):
                return x
        return None

    def role_key(self, g, k, key, bang):
        known = k.op in ("get", "item", "dget") and k.a[0].op in ("get", "item", "dget") and k.a[0].a[0].op == "gconst" \
            and k.a[0].a[0].a[1] == MAP and k.a[0].a[1] is C("PackageRole") and k.a[1] is key
        own = k.op == "slice" and k.a[0] is key and k.a[1] is C(1) and k.a[2] is NONE or \
            k.op == "mcall" and k.a[0] is key and k.a[1] == "removeprefix" and k.a[2] is C("!")
        if bang is None:
            self.rep.skip(f"namespace: names beginning with ! in {show(k)[:120]}")
        elif own and conj(g, neg(bang)) is FALSE or known and conj(g, bang) is FALSE:
            self.rep.ok()
        elif plain(k) and (own or known or any(x is key for x in walk(k))):
            self.rep.find("role:name", f"the package of {show(key)} is stored under {show(k)[:120]} when {show(g)[:120]}", self.at)
        else:
            self.rep.skip(f"namespace: role {show(k)[:120]}")

    def role_path(self, v, val):
        if v.op == "call" and v.a[0] in NORM:
            v = v.a[1]
        elif plain(v):
            self.rep.find("role:normal", f"the reference of a role is not normalised: {show(v)[:160]}", "Workspace.get_package_ref_by_role")
            return
        b = param("base_ref")
        has = mk("nn", b)
        for g, x in leaves(v):
            if x.op == "call" and x.a[0] in JOIN and len(x.a) == 3:
                base, rest = x.a[1], x.a[2]
                if rest.op == "call" and rest.a[0] in JOIN and len(rest.a) == 3 and rest.a[1] is base:
                    rest = rest.a[2]       # a joined path is absolute: joining it again changes nothing
                if rest is not val:
                    if plain(rest):
                        self.rep.find("role:path", f"the package of a role is {show(rest)[:160]} below the base reference", self.at)
                    else:
                        self.rep.skip(f"namespace: path {show(rest)[:160]}")
                    continue
                for g2, y in leaves(base, g):
                    if g2 is FALSE:
                        continue
                    self.base(g2, y, b, has)
            elif plain(x):
                self.rep.find("role:path", f"the reference of a role is {show(x)[:160]} when {show(g)[:120]}", self.at)
            else:
                self.rep.skip(f"namespace: reference {show(x)[:160]}")

    def base(self, g, y, b, has):
        default = y.op == "fstr" and len(y.a) == 2 and y.a[0] is C("/") and y.a[1] is param("name")
        g_has, g_not = conj(g, has), conj(g, neg(has))
        empty = conj(g, mk("truthy", b)) is FALSE
        if y is b and g_not is FALSE or y is b and conj(g, neg(mk("truthy", b))) is FALSE or default and (g_has is FALSE or empty):
            self.rep.ok()
        elif plain(y):
            self.rep.find("role:base", f"the base reference of a namespace is {show(y)[:120]} when {show(g)[:120]}", self.at)
        else:
            self.rep.skip(f"namespace: base reference {show(y)[:120]}")

    # ------------------------------------------------------------ configuration file
    def configured(self):
        r = self.method(self.ws, "__init__")
        if r is not None:
            path = param("config_file_path")
            reads = [(g, e) for g, e in self.fl.flat if any(
                isinstance(x, T) and any(y.op == "call" and y.a[0] == "open" and y.a[1] is path for y in walk(x)) for x in self.terms(e))]
            if reads:
                self.extra("config:loaded", "a configuration given to the constructor", reads[0][0], (mk("nn", path), mk("truthy", path)),
                           verb="is loaded")
            else:
                self.rep.find("config:loaded", "a configuration given to the constructor is not loaded", self.at)
        r = self.method(self.ws, "load_config")
        if r is None:
            return
        top = {}
        for g, e in self.fl.flat:
            for t in [g, *self.terms(e)]:
                for x in walk(norm(t)):
                    if x.op == "get" and x.a[0].op == "call" and is_const(x.a[1]):
                        top[cval(x.a[1])] = x
        tbl = top.get("namespace")
        if tbl is None:
            self.absent("namespace")
        else:
            self.config_namespaces(tbl)
        tbl = top.get("behavior")
        if tbl is None:
            self.absent("behavior")
        else:
            self.config_behavior(tbl)

    @staticmethod
    def terms(e):
        res = []
        st = list(e.data)
        while st:
            x = st.pop()
            if isinstance(x, T):
                res.append(x)
            elif isinstance(x, (tuple, list)):
                st.extend(x)
        return res

    def absent(self, name):
        """the configuration is read, but not this table"""
        tables = {cval(x.a[1]) for g, e in self.fl.flat for t in [g, *self.terms(e)] for x in walk(norm(t))
                  if x.op == "get" and x.a[0].op == "call" and is_const(x.a[1])}
        if tables & {"document", "document_mapping", "namespace", "behavior"}:
            self.rep.find(f"config:{name}", f"load_config does not use the table {name}", self.at)
        else:
            self.rep.skip(f"load_config: the table {name} is not recognised")

    def present(self, tbl):
        def f(p):
            return p.op in ("nn", "truthy") and p.a[0] is tbl or p.op == "in" and p.a[0] is tbl.a[1] and p.a[1] is tbl.a[0]
        return f

    def config_namespaces(self, tbl):
        self.at = "Workspace.load_config"
        cfg = mk("val", tbl)
        st = self.stores(attr(ME, "namespaces"))
        if len(st) != 1:
            if st or any(e.kind == "mcall" and e.data[0] is attr(ME, "namespaces") for g, e in self.fl.flat):
                self.rep.skip("load_config: how the namespaces are stored")
            else:
                self.rep.find("config:namespace", "load_config stores no namespaces", self.at)
            return
        g, k, v = st[0]
        if not self.extra("config:namespace", "a configured namespace", g, (mk("loop", tbl),), self.present(tbl), verb="is stored"):
            return
        if norm(k) is mk("key", tbl):
            self.rep.ok()
        elif plain(norm(k)):
            self.rep.find("config:namespace:key", f"a configured namespace is stored under {show(norm(k))[:120]}", self.at)
            return
        else:
            self.rep.skip(f"load_config: name of a namespace {show(k)[:120]}")
            return
        new = [(g, e) for g, e in self.fl.flat if e.kind == "new" and e.data[0].name == "Namespace"]
        if len(new) != 1:
            self.rep.skip("load_config: where namespaces are made")
            return
        init = new[0][1].data[0].lookup("__init__")
        args = dict(zip([p for p in init.pos if p != "self"], new[0][1].data[1]))
        args.update(dict(new[0][1].data[2]))
        self.rep.count("configurations stored")
        if args.get("name") is not None:
            n = norm(args["name"])
            if n is mk("key", tbl):
                self.rep.ok()
            elif plain(n):
                self.rep.find("config:namespace:name", f"a configured namespace is named {show(n)[:120]}", self.at)
            else:
                self.rep.skip(f"load_config: name of a namespace {show(n)[:120]}")
        self.config_map(args.get("package_map"), cfg)
        self.config_base(args.get("base_ref", NONE), cfg)

    def config_map(self, m, cfg):
        if m is None:
            self.rep.skip("load_config: package map of a namespace")
            return
        try:
            ents = self.fl.local(m)
        except Unclear as ex:
            self.rep.skip(f"load_config: {ex}")
            return
        if ents is None:
            if norm(m) is cfg:
                self.rep.skip("load_config: the whole table is the package map")
            else:
                self.rep.skip(f"load_config: package map {show(m)[:120]}")
            return
        if not ents:
            self.rep.find("config:roles", "a configured namespace has no roles", self.at)
            return
        key, val = mk("key", cfg), mk("val", cfg)
        is_base = mk("eq", key, C("base_ref"))
        for g, k, v in ents:
            g, k, v = norm(g), norm(k), norm(v)
            self.extra("config:roles", "an entry of a configured namespace", g,
                       (mk("loop", cfg), mk("loop", cfg.a[0])), lambda p: p.op == "not" and p.a[0].op in ("eq", "in") and p.a[0].a[0] is key
                       and {x for x in walk(p.a[0].a[1]) if is_const(x)} == {C("base_ref")}
                       or self.is_table(p, cfg), verb="is kept")
            if k is key and v is val:
                self.rep.ok()
            elif plain(k) and plain(v):
                self.rep.find("config:roles:value", f"an entry of a configured namespace is kept as {show(k)[:80]}: {show(v)[:80]}", self.at)
            else:
                self.rep.skip(f"load_config: entry {show(k)[:80]}: {show(v)[:80]}")

    @staticmethod
    def is_table(p, cfg):
        """presence of the table that holds the configuration"""
        t = cfg.a[0]
        return p.op in ("nn", "truthy") and p.a[0] is t or p.op == "in" and p.a[1] is t.a[0]

    def config_base(self, b, cfg):
        key, val = mk("key", cfg), mk("val", cfg)
        want = mk("get", cfg, C("base_ref"))
        ok = False
        for g, x in leaves(self.fl.source(norm(b))):
            if x is want or x.op == "mcall" and x.a[0] is cfg and x.a[1] == "pop" and x.a[2] is C("base_ref"):
                ok = True
            elif x is val:
                if any(p.op == "eq" and any(y is key for y in p.a) and any(y is C("base_ref") for y in p.a) for p in parts(g)):
                    ok = True
                else:
                    self.rep.find("config:base", f"the base reference of a configured namespace is taken from {show(g)[:160]}", self.at)
                    return
            elif x is NONE or x.op in ("loopvar", "absent"):
                continue
            elif plain(x):
                self.rep.find("config:base", f"the base reference of a configured namespace is {show(x)[:160]}", self.at)
                return
            else:
                self.rep.skip(f"load_config: base reference {show(x)[:120]}")
                return
        if ok:
            self.rep.ok()
        else:
            self.rep.find("config:base", "the base reference of a configured namespace is not used", self.at)

    # ------------------------------------------------------------ settings
    def config_behavior(self, tbl):
        self.at = "Workspace.load_config"
        own = attr(ME, "behavior_settings")
        calls = [(g, e) for g, e in self.fl.flat if e.kind == "lib" and e.data[1] is own]
        upd = [(g, e) for g, e in calls if e.data[0].name == "update" and len(e.data[2]) == 1 and norm(e.data[2][0]) is tbl]
        one = [(g, e) for g, e in calls if e.data[0].name == "set_value" and [norm(x) for x in e.data[2]] == [mk("key", tbl), mk("val", tbl)]]
        self.rep.count("configurations stored")
        if upd:
            self.extra("config:behavior", "the table of behavior settings", upd[0][0], (), self.present(tbl), verb="is used")
        elif one:
            self.extra("config:behavior", "an entry of the behavior settings", one[0][0], (mk("loop", tbl),), self.present(tbl), verb="is used")
        elif len(calls) == 1 and calls[0][1].data[0].name == "update" and len(calls[0][1].data[2]) == 1 and self.filtered(calls[0], tbl):
            pass
        elif calls and all(plain(norm(x)) for g, e in calls for x in e.data[2]):
            g, e = calls[0]
            self.rep.find("config:behavior", f"load_config calls {e.data[0].name}({', '.join(show(norm(x))[:80] for x in e.data[2])}) "
                          "with the behavior settings", self.at)
        elif calls or any(e.kind in ("mcall", "setattr") and e.data[0] is own for g, e in self.fl.flat):
            self.rep.skip("load_config: how the behavior settings are stored")
        else:
            self.rep.find("config:behavior", "load_config does not store the behavior settings", self.at)

    def filtered(self, call, tbl):
        """the settings are put into a table of their own before"""
        try:
            ents = self.fl.local(call[1].data[2][0])
        except Unclear:
            return False
        if not ents or len(ents) != 1:
            return False
        g, k, v = [norm(x) for x in ents[0]]
        if k is not mk("key", tbl) or v is not mk("val", tbl):
            return False
        self.extra("config:behavior", "an entry of the behavior settings", g, (mk("loop", tbl),), self.present(tbl), verb="is used")
        return True

    # ------------------------------------------------------------ package maps
    def package_map(self):
        r = self.method(self.ws, "create_package_map")
        if r is None:
            return
        pm, given = attr(ME, "package_map"), param("mapping")
        st = self.stores(pm)
        cleared = [i for i, (g, e) in enumerate(self.fl.flat) if e.kind == "mcall" and e.data[0] is pm and e.data[1] == "clear" and g is TRUE]
        new = [(i, e.data[2]) for i, (g, e) in enumerate(self.fl.flat) if e.kind == "setattr" and e.data[0] is ME and e.data[1] == "package_map"
               and g is TRUE]
        if new:
            try:
                st = st + (self.fl.local(new[-1][1]) or [])
            except Unclear as ex:
                self.rep.skip(f"create_package_map: {ex}")
                return
        if not st:
            if any(e.kind == "mcall" and e.data[0] is pm and e.data[1] != "clear" for g, e in self.fl.flat) or new:
                self.rep.skip("create_package_map: how the map is filled")
            else:
                self.rep.find("map:stored", "create_package_map stores nothing", self.at)
            return
        self.rep.count("configurations stored")
        first = next((i for i, (g, e) in enumerate(self.fl.flat) if e.kind == "setitem" and e.data[0] is pm), 10 ** 9)
        early = [i for i in cleared + [n[0] for n in new] if i < first]
        if early:
            self.rep.ok()
        elif cleared:
            self.rep.find("map:cleared", "create_package_map clears the map after filling it", self.at)
        elif any(e.kind == "mcall" and e.data[0] is pm and e.data[1] not in ("get", "items", "keys", "values") for g, e in self.fl.flat):
            self.rep.skip("create_package_map: former entries")
        else:
            self.rep.find("map:cleared", "create_package_map keeps the entries of a former map", self.at)
        if early and any(i > first for i in cleared):
            self.rep.find("map:cleared", "create_package_map clears the map after filling it", self.at)
        self.refusals("map", "a package map", wrong_type(given))
        for g, k, v in st:
            g, k, v = norm(g), norm(k), norm(v)
            self.extra("map:stored", "an entry of a package map", g, (mk("loop", given),), verb="is stored")
            want = mk("mcall", ME, "make_packages", mk("val", given))
            if k is mk("key", given) and v is want:
                self.rep.ok()
            elif plain(k) and plain(v):
                self.rep.find("map:value", f"{show(k)[:100]} stands for {show(v)[:160]} in a package map", self.at)
            else:
                self.rep.skip(f"create_package_map: entry {show(k)[:80]}: {show(v)[:80]}")
        key = param("package_key")
        here = mk("get", pm, key)
        empty = neg(mk("truthy", pm))

        def no_map(p):
            return p is empty or p.op == "not" and p.a[0].op == "in" or p.op == "eq" and any(x is pm for x in walk(p)) or \
                p.op == "not" and p.a[0].op == "nn" and p.a[0].a[0].op in ("get", "dget") or p.op == "exc"
        for name, what in (("get_package", None), ("find_element", "find"), ("add_element", "append")):
            r = self.method(self.ws, name)
            if r is None:
                continue
            self.rep.count("lookups by key")
            self.refusals("map:" + name, name, lambda p: no_map(p) or wrong_type(key, param("element"), param("element_name"))(p))
            v = self.flat_item(norm(r.value), pm, key, here) if r.value is not None else NONE
            if what == "append":
                calls = [(g, e) for g, e in self.fl.flat if e.kind == "lib" and e.data[0].name == "append"]
                good = [(g, e) for g, e in calls if self.flat_item(norm(e.data[1]), pm, key, here) is here
                        and [norm(x) for x in e.data[2]] == [param("element")]]
                if len(good) == 1:
                    self.extra("map:add_element", "an element", good[0][0], (), lambda p: p is mk("truthy", pm) or p.op == "in"
                               or p is mk("nn", here), verb="is added")
                elif calls and all(plain(norm(e.data[1])) for g, e in calls):
                    self.rep.find("map:add_element", "add_element does not append the element to the package of its key once", self.at)
                elif not calls:
                    self.rep.find("map:add_element", "add_element does not append the element", self.at)
                else:
                    self.rep.skip("add_element: where the element goes")
                continue
            want = here if what is None else mk("mcall", here, "find", param("element_name"))
            bad = [(g, x) for g, x in leaves(v) if x is not want]
            if not bad:
                self.rep.ok()
            elif all(plain(x) and plain(g) for g, x in bad):
                self.rep.find("map:" + name, f"{name} returns {show(bad[0][1])[:160]} when {show(bad[0][0])[:100]}", self.at)
            else:
                self.rep.skip(f"{name} returns {show(v)[:160]}")

    @staticmethod
    def flat_item(t, pm, key, here):
        return subst(t, {mk("item", pm, key): here, mk("dget", pm, key): here})


def run(s, rep):
    Roles(s, rep).run()
    settings(s, rep)
    enum_table(s, rep)


# ------------------------------------------------------------ behavior settings
def settings(s, rep):
    """update and set_value set the named setting; get_value returns it"""
    b = Base(s, rep)
    b.ma = MethodAnalysis(s.prog, s.ctors)
    cls = s.prog.cls("BehaviorSettings")
    if cls is None:
        rep.skip("BehaviorSettings does not exist")
        return

    def setting(key, name, val, loops, subjects):
        rep.count("settings methods")
        dyn = [(g, e) for g, e in b.fl.flat if e.kind == "setattrdyn" and e.data[0] is ME]
        if not dyn:
            dyn = [(g, e) for g, e in b.fl.flat if e.kind == "xcall" and e.data[0] == "setattr" and len(e.data[1]) == 3]
            if not dyn:
                if any(e.kind in ("setattr", "setitem") for g, e in b.fl.flat):
                    rep.skip(f"{b.at}: how settings are stored")
                else:
                    rep.find(key, f"{b.at} stores no setting", b.at)
                return
        for g, e in dyn:
            n, v = (e.data[1], e.data[2]) if e.kind == "setattrdyn" else e.data[1][1:]
            n, v = norm(n), norm(v)
            b.extra(key, "a setting", g, loops, lambda p: p.op == "call" and p.a[0] == "hasattr" or any(
                x.op == "call" and x.a[0] == "hasattr" for x in walk(p)) or p.op == "inst" and p.a[0] is val, verb="is stored")
            if n is name and v is val:
                rep.ok()
            elif plain(n) and plain(v):
                rep.find(key + ":value", f"the setting {show(n)[:100]} is set to {show(v)[:100]}", b.at)
            else:
                rep.skip(f"{b.at}: setting {show(n)[:80]} = {show(v)[:80]}")

    def refuse(p, val):
        return wrong_type(val)(p) or any(x.op in ("call", "hasattr") and "hasattr" in (x.op, x.a[0]) for x in walk(p))

    if b.method(cls, "update") is not None:
        m = param("value_map")
        setting("settings:update", mk("key", m), mk("val", m), (mk("loop", m),), m)
        b.refusals("settings:update", "a setting", lambda p: refuse(p, mk("val", m)) or wrong_type(m)(p))
    if b.method(cls, "set_value") is not None:
        setting("settings:set", param("name"), param("value"), (), None)
        b.refusals("settings:set", "a setting", lambda p: refuse(p, param("value")))
    r = b.method(cls, "get_value")
    if r is not None:
        rep.count("settings methods")
        n = param("name")
        want = None
        for x in walk(r.value):
            if x.op == "getattr" and x.a[0] is ME and x.a[1] is n or x.op == "call" and x.a[0] == "getattr" and x.a[1] is ME and x.a[2] is n:
                want = x
        if want is None or r.value is not want:
            if plain(r.value) or want is not None and all(x is want or is_const(x) for _, x in leaves(r.value)):
                rep.find("settings:get", f"get_value returns {show(r.value)[:160]}", b.at)
            else:
                rep.skip(f"get_value returns {show(r.value)[:160]}")
        else:
            rep.ok()
            b.refusals("settings:get", "a setting", lambda p: p in (neg(mk("nn", want)), neg(mk("truthy", want))) or refuse(p, want))
    # every setting is unset at first
    r = b.method(cls, "__init__")
    if r is not None:
        for g, e in b.fl.flat:
            if e.kind == "setattr" and e.data[0] is ME:
                rep.count("settings")
                if e.data[2] is NONE:
                    rep.ok()
                elif is_const(e.data[2]):
                    rep.find(f"settings:init:{e.data[1]}", f"the setting {e.data[1]} is {show(e.data[2])} at first", b.at)
                else:
                    rep.skip(f"setting {e.data[1]} starts as {show(e.data[2])[:60]}")


# ------------------------------------------------------------ names of roles
def enum_table(s, rep):
    """each role is named by its own name, in one spelling or another"""
    m = s.prog.modules["autosar.xml.enumeration"]
    table = enums.literal_maps(m).get(MAP, {}).get("PackageRole")
    cls = s.prog.cls("PackageRole")
    if not isinstance(table, ast.Dict) or cls is None:
        rep.skip("the names of the roles are not a literal table")
        return
    members = {t.id for n in cls.node.body if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
    named = set()
    seen = {}
    for k, v in zip(table.keys, table.values):
        x = enums.member_of(v)
        if not isinstance(k, ast.Constant) or x is None or x[0] != "PackageRole":
            rep.skip("a name of a role that is not a literal")
            return
        rep.count("names of roles")
        seen[k.value] = x[1]
    for k, mem in seen.items():
        named.add(mem)
        if enums.norm(k) == enums.norm(mem):
            rep.ok()
        else:
            rep.find(f"roles:{k}", f"the name {k} stands for the role {mem}", "autosar.xml.enumeration." + MAP)
    for mem in sorted(members - named):
        rep.find(f"roles:{mem}", f"the role {mem} has no name", "autosar.xml.enumeration." + MAP)
