"""
Escape analysis for objects that exist once: values of parameter defaults, of class
level names, of module level names, and results of cached functions. Where such an
object is mutable it may be read and copied, but not changed, stored in an object or
handed out. Lists and dictionaries passed by a caller are copied, not kept.
"""
import ast
from sa.program import ClassInfo
from sa.terms import mk, FALSE, conj
from sa.ctor import leaves, param

CHANGES = {"append", "insert", "extend", "remove", "pop", "clear", "update", "setdefault", "add", "discard", "popitem",
           "sort", "reverse", "move_to_end", "appendleft", "popleft", "__setitem__", "difference_update"}
COPIES = {"list", "dict", "set", "tuple", "frozenset", "sorted", "len", "enumerate", "zip", "iter", "isinstance", "any", "all",
          "sum", "min", "max", "str", "repr", "bool", "int", "float", "type", "reversed", "map", "filter", "print", "range",
          "deepcopy", "copy", "issubclass", "hash", "id", "next", "format", "join"}
FACTORIES = {"list", "dict", "set", "defaultdict", "OrderedDict", "deque", "bytearray", "Counter"}
CACHES = ("cache", "lru_cache", "functools.cache", "functools.lru_cache")
DEPTH = 6


def mutable(prog, m, e):
    """the expression creates a mutable object"""
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        f = e.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        b = prog.static_expr(f, m)
        if b is not None and b[0] == "class":
            return not b[1].is_enum
        return name in FACTORIES
    if isinstance(e, ast.BoolOp):
        return any(mutable(prog, m, v) for v in e.values)
    if isinstance(e, ast.IfExp):
        return mutable(prog, m, e.body) or mutable(prog, m, e.orelse)
    return False


def functions(prog):
    for c in prog.classes:
        yield from c.methods.values()
        yield from c.setters.values()
    for m in prog.modules.values():
        for b in m.env.values():
            if b[0] == "func" and b[1].module is m:
                yield b[1]


class Escape:
    """what happens to a shared object inside a function"""

    def __init__(self, prog):
        self.prog = prog
        self.memo = {}

    def uses(self, f, source, depth=0):
        """[(kind, line)] for the object every expression e with source(e) evaluates to; kind: changed, stored, returned, passed"""
        res = []
        names = set()
        body = f.node.body

        def is_src(e):
            if e is None:
                return False
            if isinstance(e, ast.Name) and e.id in names:
                return True
            if isinstance(e, ast.BoolOp):
                return any(is_src(v) for v in e.values)
            if isinstance(e, ast.IfExp):
                return is_src(e.body) or is_src(e.orelse)
            if isinstance(e, ast.NamedExpr):
                return is_src(e.value)
            return source(e)
        grown = True
        while grown:
            grown = False
            for n in self.nodes(body):
                if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None and is_src(n.value):
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        if isinstance(t, ast.Name) and t.id not in names and not source(t):
                            names.add(t.id)
                            grown = True
        for n in self.nodes(body):
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, ast.Attribute) and n.value is not None and is_src(n.value):
                        res.append(("stored", n.lineno))
                    if isinstance(t, ast.Subscript):
                        if is_src(t.value):
                            res.append(("changed", n.lineno))
                        if n.value is not None and is_src(n.value):
                            res.append(("stored", n.lineno))
                    if isinstance(t, ast.Attribute) and is_src(t.value):
                        res.append(("changed", n.lineno))
            elif isinstance(n, ast.AugAssign):
                if is_src(n.target) or isinstance(n.target, ast.Subscript) and is_src(n.target.value):
                    res.append(("changed", n.lineno))
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    if isinstance(t, (ast.Subscript, ast.Attribute)) and is_src(t.value):
                        res.append(("changed", n.lineno))
            elif isinstance(n, (ast.Return, ast.Yield)):
                if is_src(n.value):
                    res.append(("returned", n.lineno))
            elif isinstance(n, ast.Call):
                res += self.call(f, n, is_src, depth)
            elif isinstance(n, (ast.List, ast.Tuple, ast.Set)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load):
                if any(is_src(x) for x in n.elts):
                    res.append(("passed", n.lineno))
            elif isinstance(n, ast.Dict):
                if any(is_src(x) for x in n.values):
                    res.append(("passed", n.lineno))
        return res

    def nodes(self, body):
        stack = list(body)
        while stack:
            n = stack.pop()
            yield n
            stack.extend(ast.iter_child_nodes(n))

    def call(self, f, n, is_src, depth):
        fn = n.func
        res = []
        if isinstance(fn, ast.Attribute) and is_src(fn.value):
            if fn.attr in CHANGES:
                res.append(("changed", n.lineno))
        args = [(i, a) for i, a in enumerate(n.args)] + [(k.arg, k.value) for k in n.keywords]
        hit = [(i, a) for i, a in args if is_src(a)]
        if not hit:
            return res
        name = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ""
        if isinstance(fn, ast.Attribute) and name in CHANGES:
            # a list extended or a dictionary updated by the object copies it; an object appended is kept
            if name not in ("extend", "update", "difference_update"):
                res.append(("stored", n.lineno))
            return res
        if name == "setattr":
            return res + [("stored", n.lineno)]
        if name in COPIES:
            return res
        g, off = self.callee(f, fn)
        for i, a in hit:
            if g is None or depth >= DEPTH or i is None:
                res.append(("passed", n.lineno))
                continue
            p = i if isinstance(i, str) else (g.pos[i + off] if i + off < len(g.pos) else None)
            if p is None:
                res.append(("passed", n.lineno))
                continue
            key = (g, p)
            if key not in self.memo:
                self.memo[key] = []
                self.memo[key] = self.uses(g, lambda e, p=p: isinstance(e, ast.Name) and e.id == p, depth + 1)
            for k, _ in self.memo[key]:
                res.append((k, n.lineno))
        return res

    def callee(self, f, fn):
        if isinstance(fn, ast.Attribute) and f.cls is not None and f.pos and isinstance(fn.value, ast.Name) \
                and fn.value.id == f.pos[0]:
            g = f.cls.lookup(fn.attr)
            return g, (0 if g is not None and g.is_static else 1)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) \
                and fn.value.func.id == "super" and f.cls is not None:
            return f.cls.lookup(fn.attr, f.cls), 1
        b = self.prog.static_expr(fn, f.module)
        if b is not None and b[0] == "func":
            return b[1], 0
        if b is not None and b[0] == "class":
            return b[1].lookup("__init__"), 1
        return None, 0


def report(rep, key, what, where, uses, bad):
    kinds = [k for k, _ in uses]
    hit = [(k, l) for k, l in uses if k in bad]
    if hit:
        rep.find(key, f"{what} is {hit[0][0]}: every use shares the same object", where, f"line {hit[0][1]}")
    elif "passed" in kinds:
        rep.skip(f"{what} is passed on")
    else:
        rep.ok()


def defaults(s, rep, esc):
    for f in functions(s.prog):
        rep.count("functions")
        for p, d in f.defaults.items():
            rep.count("defaults")
            if not mutable(s.prog, f.module, d):
                b = s.prog.static_expr(d, f.module) if isinstance(d, (ast.Name, ast.Attribute)) else None
                if b is None or b[0] != "const" or not mutable(s.prog, b[2], b[1]):
                    rep.ok()
                    continue
            uses = esc.uses(f, lambda e: isinstance(e, ast.Name) and e.id == p)
            report(rep, f"default:{f.qual}:{p}", f"the default value of {p} of {f.qual}", f.where, uses,
                   ("changed", "stored", "returned"))


def module_level(s, rep, esc):
    fs = list(functions(s.prog))
    for m in s.prog.modules.values():
        for name, b in m.env.items():
            if b[0] != "const" or b[2] is not m or not mutable(s.prog, m, b[1]):
                continue
            rep.count("module objects")

            def source(e, mod, b=b):
                if isinstance(e, (ast.Name, ast.Attribute)):
                    r = s.prog.lookup(mod, e.id) if isinstance(e, ast.Name) else s.prog.static_expr(e, mod)
                    return r is not None and r[0] == "const" and r[1] is b[1]
                return False
            uses = []
            for f in fs:
                local = {x for x in f.pos + f.kwonly}
                uses += esc.uses(f, lambda e, f=f, local=local: not (isinstance(e, ast.Name) and e.id in local)
                                 and source(e, f.module))
            # tables handed to lookup code stay unchanged unless some code changes what it is handed
            report(rep, f"module:{m.name}.{name}", f"the module object {m.name}.{name}", m.relpath,
                   [u for u in uses if u[0] != "passed"], ("changed", "stored"))


def class_level(s, rep, esc):
    fs = list(functions(s.prog))
    for c in s.prog.classes:
        if c.is_enum:
            continue
        for a, e in c.attrs.items():
            if not mutable(s.prog, c.module, e):
                continue
            if c.is_dataclass and isinstance(e, ast.Call) and ast.unparse(e.func).split(".")[-1] == "field":
                continue
            rep.count("class objects")
            kin = {c} | set(c.all_subclasses())
            if c.is_dataclass:
                rep.find(f"class:{c.name}.{a}", f"all objects of {c.name} share the default of {a}", c.module.relpath)
                continue
            shadowed = all(always_set(k, a) for k in kin)
            uses = []
            for f in fs:
                def source(e, f=f):
                    if not isinstance(e, ast.Attribute) or e.attr != a:
                        return False
                    v = e.value
                    if isinstance(v, ast.Name) and f.cls is not None and f.pos and v.id == f.pos[0]:
                        return bool(set(f.cls.mro) & {c}) and (f.is_classmethod or not shadowed)
                    if ast.unparse(v) in ("self.__class__", "type(self)"):
                        return f.cls is not None and c in f.cls.mro
                    b = s.prog.static_expr(v, f.module)
                    if b is not None and b[0] == "class":
                        return c in b[1].mro
                    if b is not None:
                        return False
                    return not shadowed
                uses += esc.uses(f, source)
            # an assignment to the attribute of an object is no change of the shared one
            report(rep, f"class:{c.name}.{a}", f"the class attribute {c.name}.{a}", c.module.relpath,
                   [u for u in uses if u[0] != "passed"], ("changed", "stored"))


def always_set(c, a):
    """the constructor assigns the attribute on every path"""
    f = c.lookup("__init__")
    if f is None:
        return False
    for g in [x for x in c.mro if isinstance(x, ClassInfo) and "__init__" in x.methods]:
        me = g.methods["__init__"].pos[0]
        for n in g.methods["__init__"].node.body:
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) and n.value else []):
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me and t.attr == a:
                    return True
    return False


def cached(s, rep, esc):
    fs = list(functions(s.prog))
    for g in fs:
        if not any(d.split("(")[0] in CACHES for d in g.decorators):
            continue
        made = [n for n in ast.walk(g.node) if isinstance(n, ast.Return) and n.value is not None]
        if not made or all(isinstance(n.value, (ast.Constant, ast.JoinedStr)) for n in made):
            continue
        rep.count("cached functions")
        uses = []
        for f in fs:
            def source(e, f=f):
                return isinstance(e, ast.Call) and (esc.callee(f, e.func)[0] is g or
                                                    isinstance(e.func, ast.Attribute) and e.func.attr == g.name)
            uses += [u for u in esc.uses(f, source) if u[0] in ("changed", "stored")]
        shape = any(mutable(s.prog, g.module, n.value) or isinstance(n.value, ast.Name) for n in made)
        if shape:
            report(rep, f"cached:{g.qual}", f"the cached result of {g.qual}", g.where, uses, ("changed", "stored"))


def collection_types(ts):
    return {t for t in ts if t in ("list", "dict", "set") or isinstance(t, tuple) and t[0] in ("list", "dict")}


def arguments(s, rep):
    """collections passed to a constructor are copied"""
    for c in s.prog.classes:
        if c.is_enum or not c.known_bases() or c.module.name.startswith(("autosar.xml.reader", "autosar.xml.writer",
                                                                         "autosar.xml.exception")):
            continue
        ct = s.ctors.get(c)
        if ct.obj is None:
            continue
        kept = {}
        for a, v in ct.entries.items():
            for g, leaf in leaves(v):
                for p in ct.params:
                    if leaf is param(p):
                        kept.setdefault(p, []).append((a, g))
        for p in ct.params:
            colls = collection_types(ct.types.get(p) or ())
            if not colls:
                continue
            rep.count("collection parameters")
            hit = None
            for a, g in kept.get(p, ()):
                for w in {t if isinstance(t, str) else t[0] for t in colls}:
                    q = conj(g, mk("inst", param(p), mk("ext", w)))
                    if q is not FALSE:
                        hit = (a, w)
            # the class that takes the argument first owns the finding
            owner = owner_of(c, p)
            if hit is None:
                rep.ok()
            else:
                rep.find(f"kept:{owner.name}.{hit[0]}", f"{owner.name} keeps the {hit[1]} passed as {p} as its own {hit[0]}: "
                         f"objects given the same {hit[1]} share it", owner.module.relpath)


def owner_of(c, p):
    for k in reversed([x for x in c.mro if isinstance(x, ClassInfo)]):
        f = k.methods.get("__init__")
        if f is not None and p in f.pos_nodes:
            return k
    return c


def run(s, rep):
    esc = Escape(s.prog)
    defaults(s, rep, esc)
    module_level(s, rep, esc)
    class_level(s, rep, esc)
    cached(s, rep, esc)
    arguments(s, rep)
