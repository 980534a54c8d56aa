"""
Program model of /repo/src/autosar: modules, classes (with C3 MRO), functions,
imports and module level constants, built with the standard library parser.
Nothing of the analysed code is imported or executed.
"""
import ast
import hashlib
import os


class AnalysisBroken(Exception):
    """The analysed code no longer has an anchor this analysis depends on."""


class Module:
    def __init__(self, name, path, source):
        self.name = name
        self.path = path
        self.source = source
        self.tree = ast.parse(source, filename=path)
        self.env = {}          # name -> binding
        self.is_package = os.path.basename(path) == "__init__.py"

    def __repr__(self):
        return f"<module {self.name}>"


class FuncInfo:
    def __init__(self, name, module, cls, node, outer=None):
        self.name = name
        self.module = module
        self.cls = cls
        self.node = node
        self.outer = outer
        a = node.args
        self.pos = [p.arg for p in a.posonlyargs + a.args]
        self.pos_nodes = {p.arg: p for p in a.posonlyargs + a.args + a.kwonlyargs}
        self.kwonly = [p.arg for p in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        for p, d in zip(reversed(self.pos), reversed(a.defaults)):
            self.defaults[p] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.defaults[p.arg] = d
        self.decorators = set()
        self.setter_of = None
        for d in getattr(node, "decorator_list", []):
            s = ast.unparse(d)
            self.decorators.add(s)
            if s.endswith(".setter"):
                self.setter_of = s[:-7]
        self.is_static = "staticmethod" in self.decorators
        self.is_classmethod = "classmethod" in self.decorators
        self.is_property = bool(self.decorators & {"property", "functools.cached_property", "cached_property"})
        self.is_abstract = any("abstractmethod" in d for d in self.decorators)
        self._gen = None

    @property
    def qual(self):
        if self.cls is not None:
            return f"{self.cls.name}.{self.name}"
        return f"{self.module.name.split('.')[-1]}.{self.name}"

    @property
    def where(self):
        return f"{self.module.relpath}:{self.node.lineno}"

    @property
    def is_generator(self):
        if self._gen is None:
            self._gen = False
            stack = list(self.node.body) if isinstance(self.node.body, list) else [self.node.body]
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    self._gen = True
                    break
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                stack.extend(ast.iter_child_nodes(n))
        return self._gen

    def annotation(self, param):
        p = self.pos_nodes.get(param)
        return p.annotation if p is not None else None

    def __repr__(self):
        return f"<func {self.qual}>"


class ClassInfo:
    def __init__(self, name, module, node):
        self.name = name
        self.module = module
        self.node = node
        self.base_exprs = node.bases
        self.bases = []        # ClassInfo or str (external dotted name)
        self.methods = {}
        self.setters = {}
        self.attrs = {}        # class level name -> ast expr
        self.ann = {}          # class level annotated names
        self._mro = None
        self._attr_ann = None
        self.subclasses = []
        self.is_dataclass = any("dataclass" in ast.unparse(d) for d in node.decorator_list)

    @property
    def mro(self):
        if self._mro is None:
            seqs = []
            for b in self.bases:
                seqs.append(list(b.mro) if isinstance(b, ClassInfo) else [b])
            seqs.append(list(self.bases))
            res = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    cand = s[0]
                    if not any(cand in t[1:] for t in seqs):
                        break
                else:
                    raise AnalysisBroken(f"inconsistent MRO for {self.name}")
                res.append(cand)
                seqs = [[x for x in t if x is not cand and x != cand] for t in seqs]
                seqs = [t for t in seqs if t]
            self._mro = res
        return self._mro

    def is_sub(self, other):
        """other: ClassInfo or external dotted/short name"""
        if isinstance(other, ClassInfo):
            return other in self.mro
        return any(isinstance(b, str) and (b == other or b.split(".")[-1] == other.split(".")[-1]) for b in self.mro)

    def known_bases(self):
        """every base is a project class or one without behaviour of its own"""
        return all(isinstance(b, ClassInfo) or b.split(".")[-1] in ("ABC", "object", "Enum", "IntEnum") for b in self.mro)

    def lookup(self, name, after=None):
        """Finds method (FuncInfo) along the MRO; after=class to start behind"""
        mro = self.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if isinstance(c, ClassInfo) and name in c.methods:
                return c.methods[name]
        return None

    def lookup_setter(self, name):
        for c in self.mro:
            if isinstance(c, ClassInfo) and name in c.setters:
                return c.setters[name]
        return None

    def lookup_attr(self, name):
        for c in self.mro:
            if isinstance(c, ClassInfo) and name in c.attrs:
                return c, c.attrs[name]
        return None

    @property
    def is_enum(self):
        return self.is_sub("Enum") or self.is_sub("IntEnum")

    def enum_members(self):
        """ordered [(name, value)] with auto() resolved"""
        res = []
        last = 0
        for st in self.node.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                v = st.value
                if isinstance(v, ast.Constant):
                    val = v.value
                elif isinstance(v, ast.UnaryOp) and isinstance(v.operand, ast.Constant):
                    val = -v.operand.value
                elif isinstance(v, ast.Call):
                    val = last + 1 if isinstance(last, int) else None
                elif isinstance(v, ast.Name):
                    val = dict(res).get(v.id)
                else:
                    val = None
                last = val
                res.append((st.targets[0].id, val))
        return res

    def all_subclasses(self):
        res, stack = [], [self]
        while stack:
            c = stack.pop()
            if c not in res:
                res.append(c)
                stack.extend(c.subclasses)
        return res

    def attr_annotation(self, name):
        """annotation expression of self.<name> : T in any method along the MRO"""
        for c in self.mro:
            if not isinstance(c, ClassInfo):
                continue
            if c._attr_ann is None:
                c._attr_ann = {}
                for f in list(c.methods.values()):
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) \
                                and isinstance(n.target.value, ast.Name) and n.target.value.id == "self":
                            c._attr_ann.setdefault(n.target.attr, n.annotation)
                for k, v in c.ann.items():
                    c._attr_ann.setdefault(k, v)
            if name in c._attr_ann:
                return c._attr_ann[name], c.module
        return None

    def __repr__(self):
        return f"<class {self.name}>"


class Program:
    def __init__(self, repo=None):
        self.repo = repo or os.environ.get("VERIF_REPO", "/repo")
        self.src = os.path.join(self.repo, "src")
        self.modules = {}
        self.classes = []
        self._load()

    def _load(self):
        root = os.path.join(self.src, "autosar")
        if not os.path.isdir(root):
            raise AnalysisBroken(f"no package at {root}")
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.src)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                with open(path, encoding="utf-8") as fh:
                    source = fh.read()
                m = Module(name, path, source)
                m.relpath = os.path.relpath(path, self.repo)
                self.modules[name] = m
        self.digest = hashlib.sha256("\0".join(
            f"{n}\0{m.source}" for n, m in sorted(self.modules.items())).encode()).hexdigest()
        for m in self.modules.values():
            self._bind_body(m, m.tree.body)
        for m in self.modules.values():
            for b in list(m.env.values()):
                if b[0] == "class" and b[1].module is m:
                    c = b[1]
                    for e in c.base_exprs:
                        r = self.static_expr(e, m)
                        if isinstance(r, tuple) and r[0] == "class":
                            c.bases.append(r[1])
                            r[1].subclasses.append(c)
                        else:
                            c.bases.append(r[1] if isinstance(r, tuple) and r[0] == "ext" else ast.unparse(e))
                    self.classes.append(c)

    def _bind_body(self, m, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.env[a.asname] = self._modref(a.name)
                    else:
                        top = a.name.split(".")[0]
                        m.env[top] = self._modref(top)
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = m.name.split(".")
                    if not m.is_package:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (st.level - 1)]
                    base = ".".join(parts + ([st.module] if st.module else []))
                for a in st.names:
                    m.env[a.asname or a.name] = ("import", base, a.name)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.env[st.name] = ("func", FuncInfo(st.name, m, None, st))
            elif isinstance(st, ast.ClassDef):
                c = ClassInfo(st.name, m, st)
                m.env[st.name] = ("class", c)
                for n in st.body:
                    if isinstance(n, ast.FunctionDef):
                        f = FuncInfo(n.name, m, c, n)
                        if f.setter_of:
                            c.setters[f.setter_of] = f
                        else:
                            c.methods[n.name] = f
                    elif isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Name):
                                c.attrs[t.id] = n.value
                    elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                        c.ann[n.target.id] = n.annotation
                        if n.value is not None:
                            c.attrs[n.target.id] = n.value
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.env[t.id] = ("const", st.value, m)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                m.env[st.target.id] = ("const", st.value, m)
            elif isinstance(st, (ast.If, ast.Try)):
                self._bind_body(m, st.body)
                self._bind_body(m, getattr(st, "orelse", []))

    def _modref(self, name):
        if name in self.modules or name.split(".")[0] == "autosar":
            return ("mod", name)
        return ("ext", name)

    def lookup(self, m, name):
        """resolve global name in module to a binding, following imports"""
        b = m.env.get(name)
        return self._deref(b)

    def _deref(self, b, depth=0):
        if b is None or depth > 10:
            return b
        if b[0] == "import":
            base, name = b[1], b[2]
            if base in self.modules:
                sub = f"{base}.{name}"
                if name in self.modules[base].env:
                    return self._deref(self.modules[base].env[name], depth + 1)
                if sub in self.modules:
                    return ("mod", sub)
                return ("ext", sub)
            return ("ext", f"{base}.{name}")
        return b

    def static_expr(self, e, m):
        """resolve Name/Attribute expression to binding"""
        if isinstance(e, ast.Name):
            b = self.lookup(m, e.id)
            if b is None:
                return ("ext", e.id)
            if b[0] == "const":
                r = self.static_expr(b[1], b[2])
                return r if r is not None else b
            return b
        if isinstance(e, ast.Attribute):
            b = self.static_expr(e.value, m)
            if b is None:
                return None
            if b[0] == "mod":
                mod = self.modules.get(b[1])
                if mod is not None:
                    r = self._deref(mod.env.get(e.attr))
                    if r is None and f"{b[1]}.{e.attr}" in self.modules:
                        return ("mod", f"{b[1]}.{e.attr}")
                    if r is not None and r[0] == "const":
                        r2 = self.static_expr(r[1], r[2])
                        return r2 if r2 is not None else r
                    return r
                return None
            if b[0] == "ext":
                return ("ext", f"{b[1]}.{e.attr}")
            if b[0] == "class":
                return ("classattr", b[1], e.attr)
        return None

    def module(self, name):
        if name not in self.modules:
            raise AnalysisBroken(f"module {name} not found")
        return self.modules[name]

    def cls(self, name, module=None):
        for c in self.classes:
            if c.name == name and (module is None or c.module.name == module):
                return c
        raise AnalysisBroken(f"class {name} not found")

    def find_cls(self, name, module=None):
        for c in self.classes:
            if c.name == name and (module is None or c.module.name == module):
                return c
        return None

    # -- annotations ------------------------------------------------------
    def ann_types(self, e, m, depth=0):
        """
        Resolve annotation to set of type atoms: ClassInfo, 'int','str','float','bool','None','list','dict','tuple',
        'any', ('list', frozenset(atoms))
        """
        if e is None or depth > 12:
            return {"any"}
        if isinstance(e, ast.Constant):
            if e.value is None:
                return {"None"}
            if isinstance(e.value, str):
                try:
                    return self.ann_types(ast.parse(e.value, mode="eval").body, m, depth + 1)
                except SyntaxError:
                    return {"any"}
            return {"any"}
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            return self.ann_types(e.left, m, depth + 1) | self.ann_types(e.right, m, depth + 1)
        if isinstance(e, ast.Subscript):
            head = ast.unparse(e.value).split(".")[-1]
            sl = e.slice
            elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            if head in ("Union",):
                r = set()
                for x in elts:
                    r |= self.ann_types(x, m, depth + 1)
                return r
            if head == "Optional":
                return self.ann_types(elts[0], m, depth + 1) | {"None"}
            if head in ("list", "List", "Iterable", "Iterator", "Sequence", "set", "Set"):
                return {("list", frozenset(self.ann_types(elts[0], m, depth + 1)))}
            if head in ("dict", "Dict", "OrderedDict"):
                return {("dict", frozenset(self.ann_types(elts[-1], m, depth + 1)))}
            if head in ("tuple", "Tuple"):
                return {"tuple"}
            if head in ("Type", "type"):
                return {"type"}
            return {"any"}
        if isinstance(e, (ast.Name, ast.Attribute)):
            if isinstance(e, ast.Name):
                b = self.lookup(m, e.id)
            else:
                b = self._attr_binding(e, m)
            if b is None:
                n = ast.unparse(e)
                if n in ("int", "str", "float", "bool", "list", "dict", "tuple", "set", "bytes", "type"):
                    return {n}
                return {"any"}
            if b[0] == "class":
                return {b[1]}
            if b[0] == "const":
                return self.ann_types(b[1], b[2], depth + 1)
            return {"any"}
        return {"any"}

    def _attr_binding(self, e, m):
        b = self.static_expr(e.value, m)
        if b is not None and b[0] == "mod" and b[1] in self.modules:
            return self._deref(self.modules[b[1]].env.get(e.attr))
        if b is not None and b[0] == "ext":
            return ("ext", f"{b[1]}.{e.attr}")
        return None
