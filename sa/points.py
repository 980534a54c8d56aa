"""
Points-to analysis: which objects an expression may evaluate to, over the whole call
graph, with the argument objects as context. Used to decide which objects code may
change. Objects:
  ("model",)            anything that was there before: the model handed in, and all it reaches
  ("self", cls)         the object whose operations are analysed
  ("new", site, cls)    created by the expression at the site; cls is a ClassInfo or None
  ("fn", func, recv)    a function or bound method
  ("cls", cls)          a class
  ("shared", module, name)   a module level or class level object
Numbers, strings and other values that cannot change are no objects.
"""
import ast
from .program import ClassInfo, FuncInfo

MODEL = ("model",)
ITEMS = "[]"
CHANGES = {"append", "insert", "extend", "remove", "pop", "clear", "update", "setdefault", "add", "discard", "popitem",
           "sort", "reverse", "move_to_end", "appendleft", "popleft", "__setitem__", "__delitem__", "difference_update",
           "intersection_update", "symmetric_difference_update", "rotate", "extendleft"}
INSERTS = {"append", "insert", "extend", "update", "setdefault", "add", "appendleft", "__setitem__", "extendleft"}
CONTAINERS = {"list", "dict", "set", "tuple", "frozenset", "sorted", "enumerate", "zip", "iter", "reversed", "filter",
              "OrderedDict", "defaultdict", "deque", "chain"}
PURE = {"str", "len", "isinstance", "issubclass", "repr", "int", "float", "bool", "any", "all", "sum", "print", "range", "type",
        "hasattr", "ord", "chr", "abs", "round", "format", "callable", "bytes", "hash", "id", "divmod", "pow"}
ORDERLESS = {"sorted", "set", "frozenset", "any", "all", "sum", "len", "min", "max"}
SETOPS = {"union", "intersection", "difference", "symmetric_difference"}
READS = {"get", "values", "keys", "items", "copy", "index", "count", "__getitem__", "__iter__"}
LIMIT = 40000


class Effect:
    def __init__(self, func, node, what, attr):
        self.func, self.node, self.what, self.attr = func, node, what, attr


class Points:
    def __init__(self, prog, model_classes, self_class=None):
        self.prog = prog
        self.model_classes = model_classes
        self.by_name = {}
        self.props = {}
        for c in model_classes:
            for n, f in c.methods.items():
                (self.props if f.is_property else self.by_name).setdefault(n, []).append(f)
        self.self_class = self_class
        self.heap = {}
        self.copies = {}          # copy -> objects copied
        self.rets = {}            # (func, ctx) -> objects
        self.seen = {}            # (func, ctx) -> order
        self.envs = {}
        self.effects = {}         # (func, node, attr) -> Effect on what was there before
        self.sharedfx = {}
        self.shared_read = {}
        self.set_order = {}       # where the order of a set decides
        self.calls = set()        # functions reached
        self.externals = {}       # dotted name -> (func, node)
        self.unresolved = {}
        self.changed = False

    # ---------------------------------------------------------------- heap
    def load(self, o, field):
        if o == MODEL:
            return {MODEL}
        res = set(self.heap.get((o, field), ()))
        if field != ITEMS and o[0] in ("new", "self") and (o, None) in self.heap:
            res |= self.heap[(o, None)]
        for s in self.copies.get(o, ()):
            if s != o:
                res |= self.load(s, field)
        return res

    def store(self, o, field, vals):
        if o == MODEL or not vals:
            return
        k = (o, field)
        cur = self.heap.setdefault(k, set())
        if not vals <= cur:
            cur |= vals
            self.changed = True

    def copy(self, new, objs):
        cur = self.copies.setdefault(new, set())
        objs = {o for o in objs if o != new}
        if not objs <= cur:
            cur |= objs
            self.changed = True

    def everything(self, objs):
        """all that the fields of the objects hold (one level)"""
        res = set()
        for o in objs:
            if o == MODEL:
                res.add(MODEL)
            else:
                for (p, _), vs in list(self.heap.items()):
                    if p == o:
                        res |= vs
                for s in self.copies.get(o, ()):
                    if s != o:
                        res |= self.everything({s})
        return res

    # ------------------------------------------------------------- running
    def run(self, roots):
        """roots: [(func, {param: objects})]"""
        for f, args in roots:
            self.enter(f, args)
        rounds = 0
        while True:
            rounds += 1
            self.changed = False
            for key in list(self.seen):
                self.process(key)
            if not self.changed:
                return rounds
            if rounds > 60:
                self.unresolved["rounds"] = None
                return rounds

    def enter(self, f, args):
        ctx = tuple(sorted(((p, frozenset(v)) for p, v in args.items() if v), key=lambda x: x[0]))
        key = (f, ctx)
        if key not in self.seen:
            if len(self.seen) > LIMIT:
                self.unresolved["contexts"] = None
                return set()
            self.seen[key] = len(self.seen)
            self.calls.add(f)
            self.changed = True
            self.envs[key] = {p: set(v) for p, v in ctx}
        return self.rets.setdefault(key, set())

    def process(self, key):
        f, ctx = key
        Scope(self, f, key).go()


class Scope:
    def __init__(self, pt, f, key):
        self.pt = pt
        self.prog = pt.prog
        self.f = f
        self.m = f.module
        self.key = key
        self.env = pt.envs[key]
        self.ret = pt.rets[key]
        self.me = f.pos[0] if f.cls is not None and f.pos and not f.is_static else None
        self.unordered = set()
        self.single = set()       # expressions known to have one element
        self.locals = set(f.pos) | set(f.kwonly) | {f.vararg, f.kwarg}
        body = f.node.body if isinstance(f.node.body, list) else [f.node.body]
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.locals.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    self.locals |= {a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs}
                    if isinstance(n, ast.FunctionDef):
                        self.locals.add(n.name)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    self.locals.add(n.name)
        self.globals = set()
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Global):
                    self.globals |= set(n.names)
        self.locals -= self.globals

    def sized(self, t, depth=0):
        """expressions with (at most) one element when the test holds, and when it does not"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.sized(t.operand, depth)[::-1]
        if isinstance(t, ast.BoolOp):
            parts = [self.sized(v, depth) for v in t.values]
            i = 0 if isinstance(t.op, ast.And) else 1
            return tuple(set().union(*[p[k] for p in parts]) if k == i else set.intersection(*[p[k] for p in parts]) for k in (0, 1))
        if isinstance(t, ast.NamedExpr):
            return self.sized(t.value, depth)
        if isinstance(t, ast.Name) and depth < 3 and t.id in self.once:
            return self.sized(self.once[t.id], depth + 1)
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            a, b, op = t.left, t.comparators[0], type(t.ops[0])
            if isinstance(a, ast.Constant):
                a, b = b, a
                op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(op, op)
            if isinstance(a, ast.Name):
                a = self.once.get(a.id, a)
            if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "len" and len(a.args) == 1 \
                    and isinstance(b, ast.Constant) and b.value in (1, 2):
                x = {ast.dump(a.args[0])}
                if (op, b.value) in ((ast.Eq, 1), (ast.LtE, 1), (ast.Lt, 2)):
                    return x, set()
                if (op, b.value) in ((ast.NotEq, 1), (ast.Gt, 1), (ast.GtE, 2)):
                    return set(), x
        return set(), set()

    def go(self):
        body = self.f.node.body
        stored = {}               # name -> how often it is bound
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                stored[n.id] = stored.get(n.id, 0) + 1
        self.once = {n.targets[0].id: n.value for n in ast.walk(self.f.node)
                     if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name)
                     and stored[n.targets[0].id] == 1}
        if isinstance(body, list):
            self.block(body)
        else:
            self.out(self.ev(body))

    def out(self, vals):
        if not vals <= self.ret:
            self.ret |= vals
            self.pt.changed = True

    def bind(self, name, vals):
        cur = self.env.setdefault(name, set())
        if not vals <= cur:
            cur |= vals
            self.pt.changed = True

    def site(self, node, cls=None):
        recv = ()
        if self.f.name == "__init__" or self.f.name.startswith("create"):
            for p, v in self.key[1]:
                if p == self.me:
                    recv = tuple(sorted((self.shallow(o) for o in v), key=repr))[:1]
        return ("new", (self.f.qual, node.lineno, node.col_offset, recv), cls)

    def shallow(self, o):
        """the object as part of another's site: at most one level, none of the same function"""
        if o[0] != "new" or len(o[1]) < 4:
            return o[:2]
        q, line, col, recv = o[1][:4]
        if q == self.f.qual:
            return ("new", (q, "again"))
        return ("new", (q, line, col, tuple(("new", r[1][:3]) if r[0] == "new" else r for r in recv)))

    # ---------------------------------------------------------- statements
    def stmt(self, s):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value)
            if isinstance(s.target, ast.Name):
                self.bind(s.target.id, v)
                if self.listlike(s.value, v):
                    self.change(self.ev_name(s.target.id), s, None)
                    for o in self.ev_name(s.target.id):
                        self.pt.store(o, ITEMS, self.items(v))
                if s.target.id in self.globals:
                    self.shared_change((self.m.name, s.target.id), s)
            else:
                if isinstance(s.target, ast.Attribute) and self.listlike(s.value, v):
                    old = self.ev(ast.copy_location(ast.Attribute(s.target.value, s.target.attr, ast.Load()), s.target))
                    self.change(old, s, None)
                    for o in old:
                        self.pt.store(o, ITEMS, self.items(v))
                self.assign(s.target, v, s.value)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            v = self.ev(s.iter)
            if self.order_matters(s.body):
                self.in_order(v, s.iter)
            self.assign(s.target, self.items(v), None)
            self.block(s.body)
            self.block(s.orelse)
        elif isinstance(s, (ast.If, ast.While)):
            self.ev(s.test)
            yes, no = self.sized(s.test)
            yes, no = yes - self.single, no - self.single
            self.single |= yes
            self.block(s.body)
            self.single = self.single - yes | no
            self.block(s.orelse)
            self.single -= no
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, None)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            self.block(s.body)
            for h in s.handlers:
                self.block(h.body)
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.out(self.ev(s.value))
        elif isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Attribute):
                    self.change(self.ev(t.value), t, t.attr)
                elif isinstance(t, ast.Subscript):
                    self.change(self.ev(t.value), t, None)
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(s.exc)
        elif isinstance(s, ast.Assert):
            self.ev(s.test)
        elif isinstance(s, ast.Match):
            v = self.ev(s.subject)
            for c in s.cases:
                for n in ast.walk(c.pattern):
                    if isinstance(n, ast.MatchAs) and n.name:
                        self.locals.add(n.name)
                        self.bind(n.name, v | self.pt.everything(v))
                    elif isinstance(n, ast.MatchStar) and n.name:
                        self.locals.add(n.name)
                        self.bind(n.name, self.pt.everything(v))
                if c.guard is not None:
                    self.ev(c.guard)
                self.block(c.body)
        elif isinstance(s, ast.FunctionDef):
            fi = self.nested(s)
            self.bind(s.name, {("fn", fi, None)})

    def order_matters(self, body):
        """more than membership tests and counting happens"""
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, (ast.Yield, ast.YieldFrom, ast.AugAssign)):
                    return True
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr not in ("add", "discard", "get"):
                    return True
        return False

    def nested(self, node):
        cache = self.pt.__dict__.setdefault("nested", {})
        k = (node, self.key)
        if k not in cache:
            fi = FuncInfo(getattr(node, "name", "<lambda>"), self.m, None, node, self.f)
            fi.closure = self.key
            cache[k] = fi
        return cache[k]

    def block(self, b):
        before = set(self.single)
        for s in b:
            self.stmt(s)
            if isinstance(s, ast.If):
                for body, k in ((s.body, 1), (s.orelse, 0)):
                    if body and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                        self.single |= self.sized(s.test)[k]
        self.single = before

    def listlike(self, e, v):
        return any(o[0] == "new" and o[2] is None for o in v) or isinstance(e, (ast.List, ast.ListComp, ast.Tuple)) or \
            (MODEL in v and isinstance(e, ast.Attribute) and e.attr.endswith("s"))

    def assign(self, t, v, src):
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                self.shared_change((self.m.name, t.id), t)
            else:
                self.bind(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if len(t.elts) != 1:
                self.in_order(v, t)
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts) and \
                    not any(isinstance(x, ast.Starred) for x in src.elts + t.elts):
                for a, b in zip(t.elts, src.elts):
                    self.assign(a, self.ev(b), b)
            else:
                it = self.items(v)
                for a in t.elts:
                    self.assign(a, it, None)
        elif isinstance(t, ast.Starred):
            n = self.site(t)
            self.pt.store(n, ITEMS, v)
            self.assign(t.value, {n}, None)
        elif isinstance(t, ast.Attribute):
            objs = self.ev(t.value)
            self.change(objs, t, t.attr)
            for o in objs:
                if o[0] in ("new", "self"):
                    c = o[2] if o[0] == "new" else o[1]
                    st = c.lookup_setter(t.attr) if isinstance(c, ClassInfo) else None
                    if st is not None:
                        self.call_fn(st, [{o}, v], {}, t)
                self.pt.store(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            objs = self.ev(t.value)
            self.ev(t.slice)
            self.change(objs, t, None)
            for o in objs:
                self.pt.store(o, ITEMS, v)

    def change(self, objs, node, attr):
        for o in objs:
            if o == MODEL:
                k = (self.f, ast.dump(node)[:300])
                if k not in self.pt.effects:
                    self.pt.effects[k] = Effect(self.f, node, self.text(node), attr)
            elif o[0] == "shared":
                self.shared_change(o[1:], node)
            elif o[0] == "cls":
                self.shared_change((o[1].name, attr), node)

    def shared_change(self, what, node):
        self.pt.sharedfx.setdefault((self.f, what), node)

    def text(self, node):
        return " ".join(ast.unparse(node).split())[:80]

    def items(self, objs):
        res = set()
        for o in objs:
            res |= self.pt.load(o, ITEMS)
            if o[0] == "new" and isinstance(o[2], ClassInfo):
                it = o[2].lookup("__iter__")
                if isinstance(it, FuncInfo):
                    res |= self.call_fn(it, [{o}], {}, None)
        return res

    # --------------------------------------------------------- expressions
    def ev_name(self, name):
        if name in self.locals:
            res = set(self.env.get(name, ()))
            return res
        f = self.f
        key = self.key
        while f.outer is not None and hasattr(f, "closure"):
            key = f.closure
            f = key[0]
            if name in self.pt.envs[key]:
                return self.pt.envs[key][name]
        return self.static(ast.Name(id=name, ctx=ast.Load()))

    def static(self, e):
        b = self.prog.static_expr(e, self.m)
        if b is None:
            return set()
        if b[0] == "class":
            return {("cls", b[1])}
        if b[0] == "func":
            return {("fn", b[1], None)}
        if b[0] == "classattr":
            return self.cls_attr(b[1], b[2])
        if b[0] == "const":
            from rules.shared import mutable
            if mutable(self.prog, b[2], b[1]):
                return {("shared", b[2].name, ast.unparse(e).split(".")[-1])}
            return set()
        return set()

    def cls_attr(self, c, name):
        f = c.lookup(name)
        if isinstance(f, FuncInfo):
            return {("fn", f, ("cls", c) if f.is_classmethod else None)}
        ca = c.lookup_attr(name)
        if ca is not None and not c.is_enum:
            from rules.shared import mutable
            if mutable(self.prog, ca[0].module, ca[1]):
                return {("shared", ca[0].name, name)}
        return set()

    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            return m(e)
        res = set()
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                res |= self.ev(c)
        return res

    def e_Constant(self, e):
        return set()

    def e_JoinedStr(self, e):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.tostr(self.ev(v.value), v)
        return set()

    def tostr(self, objs, node):
        for o in objs:
            c = self.cls_of(o)
            if isinstance(c, ClassInfo):
                f = c.lookup("__str__")
                if isinstance(f, FuncInfo):
                    self.call_fn(f, [{o}], {}, node)
            elif o == MODEL:
                for f in self.pt.by_name.get("__str__", ()):
                    self.call_fn(f, [{o}], {}, node)

    def e_Compare(self, e):
        for x in [e.left] + e.comparators:
            self.ev(x)
        return set()

    def e_Name(self, e):
        return self.ev_name(e.id)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.bind(e.target.id, v)
        return v

    def e_IfExp(self, e):
        self.ev(e.test)
        yes, no = self.sized(e.test)
        before = set(self.single)
        self.single = before | yes
        res = self.ev(e.body)
        self.single = before | no
        res = res | self.ev(e.orelse)
        self.single = before
        return res

    def e_UnaryOp(self, e):
        self.ev(e.operand)
        return set()

    def e_BinOp(self, e):
        a = self.ev(e.left) | self.ev(e.right)
        if not a:
            return set()
        st = any(o[0] == "new" and o[2] == "set" for o in a)
        n = self.site(e, "set" if st and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) else None)
        self.pt.store(n, ITEMS, self.items(a))
        return {n} if st or self.listlike(e.left, a) or self.listlike(e.right, a) else {n} if MODEL in a else set()

    def e_Yield(self, e):
        if e.value is not None:
            n = self.site(e)
            self.pt.store(n, ITEMS, self.ev(e.value))
            self.out({n})
        return set()

    def e_YieldFrom(self, e):
        self.out(self.ev(e.value))
        return set()

    def e_List(self, e):
        n = self.site(e)
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.pt.store(n, ITEMS, self.items(self.ev(x.value)))
            else:
                self.pt.store(n, ITEMS, self.ev(x))
        return {n}

    e_Tuple = e_List

    def e_Set(self, e):
        n = self.site(e, None if all(isinstance(x, ast.Constant) and isinstance(x.value, (int, bool)) for x in e.elts) else "set")
        for x in e.elts:
            self.pt.store(n, ITEMS, self.ev(x.value if isinstance(x, ast.Starred) else x))
        return {n}

    def e_Dict(self, e):
        n = self.site(e)
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.pt.store(n, ITEMS, self.items(self.ev(v)))
            else:
                self.pt.store(n, ITEMS, self.ev(k) | self.ev(v))
        return {n}

    def comp(self, e, elts, ordered=True):
        for g in e.generators:
            v = self.ev(g.iter)
            if ordered and id(e) not in self.unordered:
                self.in_order(v, e)
            self.assign(g.target, self.items(v), None)
            for c in g.ifs:
                self.ev(c)
        n = self.site(e, None if ordered else "set")
        for x in elts:
            self.pt.store(n, ITEMS, self.ev(x))
        return {n}

    def in_order(self, objs, node):
        """the objects are gone through in the order of their elements"""
        if any(o[0] == "new" and o[2] == "set" for o in objs):
            self.pt.set_order.setdefault((self.f, self.text(node)), node)

    def e_ListComp(self, e):
        return self.comp(e, [e.elt])

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e):
        return self.comp(e, [e.elt], False)

    def e_DictComp(self, e):
        return self.comp(e, [e.key, e.value])

    def e_Lambda(self, e):
        return {("fn", self.nested(e), None)}

    def e_Starred(self, e):
        return self.items(self.ev(e.value))

    def e_Subscript(self, e):
        objs = self.ev(e.value)
        self.ev(e.slice)
        res = self.items(objs)
        if isinstance(e.slice, ast.Slice):
            n = self.site(e)
            self.pt.store(n, ITEMS, res)
            return {n}
        return res

    def dotted(self, e):
        """name of something outside the analysed code"""
        r = e
        while isinstance(r, ast.Attribute):
            r = r.value
        if not isinstance(r, ast.Name) or r.id in self.locals or r.id in self.globals or self.outer_local(r.id):
            return None
        b = self.prog.static_expr(e, self.m)
        return b[1] if b is not None and b[0] == "ext" else None

    def static_root(self, e):
        while isinstance(e, ast.Attribute):
            e = e.value
        return isinstance(e, ast.Name) and e.id not in self.locals and not self.outer_local(e.id)

    def outer_local(self, name):
        f = self.f
        while f.outer is not None and hasattr(f, "closure"):
            key = f.closure
            f = key[0]
            if name in self.pt.envs[key]:
                return True
        return False

    def cls_of(self, o):
        if o[0] == "new":
            return o[2]
        if o[0] == "self":
            return o[1]
        return None

    def is_self(self, e):
        return isinstance(e, ast.Name) and e.id == self.me and self.f.cls is not None

    def classes_of(self, o, e):
        """classes whose methods an attribute of the object may name; None: unknown"""
        c = self.cls_of(o)
        if isinstance(c, ClassInfo):
            return [c]
        if o == MODEL and self.is_self(e):
            return [self.f.cls] + list(self.f.cls.all_subclasses())
        return None

    def members(self, o, e, name):
        """functions the attribute of the object may be"""
        cs = self.classes_of(o, e)
        if cs is not None:
            res = []
            for c in cs:
                f = c.lookup(name)
                if isinstance(f, FuncInfo) and f not in res:
                    res.append(f)
            return res
        if o == MODEL:
            return self.pt.by_name.get(name, []) + self.pt.props.get(name, [])
        return []

    def e_Attribute(self, e):
        d = self.dotted(e)
        if d is not None:
            self.ext(d, e)
            return set()
        st = self.static(e) if self.static_root(e) else set()
        if st:
            return st
        objs = self.ev(e.value)
        res = set()
        for o in objs:
            if o[0] == "cls":
                res |= self.cls_attr(o[1], e.attr)
                continue
            fs = self.members(o, e.value, e.attr)
            for f in fs:
                if f.is_property:
                    res |= self.call_fn(f, [{o}], {}, e)
                else:
                    res.add(("fn", f, o))
            if not fs or o == MODEL:
                res |= self.pt.load(o, e.attr)
            c = self.cls_of(o)
            if isinstance(c, ClassInfo) and not fs:
                res |= self.cls_attr(c, e.attr)
        return res

    def ext(self, d, node):
        self.pt.externals.setdefault((d, self.f), node)

    def args(self, e):
        pos = []
        kws = {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                pos.append(("*", self.items(self.ev(a.value))))
            else:
                pos.append(self.ev(a))
        for k in e.keywords:
            if k.arg is None:
                kws["**"] = self.items(self.ev(k.value)) | kws.get("**", set())
            else:
                kws[k.arg] = self.ev(k.value)
        return pos, kws

    def call_fn(self, f, pos, kws, node):
        args = {}
        names = list(f.pos)
        i = 0
        for a in pos:
            if isinstance(a, tuple) and len(a) == 2 and a[0] == "*":
                for p in names[i:]:
                    args[p] = args.get(p, set()) | a[1]
                if f.vararg:
                    args.setdefault(f.vararg, set()).update(a[1])
                i = len(names)
                continue
            if i < len(names):
                args[names[i]] = set(args.get(names[i], ())) | a
            elif f.vararg:
                args.setdefault(f.vararg, set()).update(a)
            i += 1
        for k, v in kws.items():
            if k == "**":
                for p in names + f.kwonly:
                    args[p] = set(args.get(p, ())) | v
                if f.kwarg:
                    args.setdefault(f.kwarg, set()).update(v)
            elif k in names or k in f.kwonly:
                args[k] = set(args.get(k, ())) | v
            elif f.kwarg:
                args.setdefault(f.kwarg, set()).update(v)
        for va in (f.vararg, f.kwarg):
            if va and va in args:
                box = ("new", (f.qual, va), None)
                self.pt.store(box, ITEMS, args[va])
                args[va] = {box}
        for p, d in f.defaults.items():
            if p not in args:
                v = Scope.static(_At(self, f.module), d) if isinstance(d, (ast.Name, ast.Attribute)) else set()
                if v:
                    args[p] = v
        return self.pt.enter(f, args)

    def new_object(self, c, pos, kws, node):
        o = self.site(node, c)
        if c.is_enum:
            return set()
        f = c.lookup("__init__")
        if isinstance(f, FuncInfo):
            self.call_fn(f, [{o}] + pos, kws, node)
        else:
            vals = set()
            for a in pos:
                vals |= a[1] if isinstance(a, tuple) else a
            for v in kws.values():
                vals |= v
            self.pt.store(o, None, vals)
            self.pt.store(o, ITEMS, vals)
        return {o}

    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id in ORDERLESS:
            self.unordered |= {id(a) for a in e.args}
        pos, kws = self.args(e)
        flat = set()
        for a in pos:
            flat |= a[1] if isinstance(a, tuple) else a
        for v in kws.values():
            flat |= v
        fn = e.func
        # super().method(...)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) \
                and fn.value.func.id == "super":
            res = set()
            for o in self.ev_name(self.me) if self.me else ():
                c = self.cls_of(o) or self.f.cls
                f = c.lookup(fn.attr, after=self.f.cls)
                if isinstance(f, FuncInfo):
                    res |= self.call_fn(f, [{o}] + pos, kws, e)
            return res
        d = self.dotted(fn)
        name = d if d is not None and "." not in d else None
        callee = self.ev(fn) if d is None else set()
        res = set()
        done = False
        for o in callee:
            if o[0] == "fn":
                f = o[1]
                recv = []
                if o[2] is not None and not f.is_static:
                    recv = [{o[2]}]
                res |= self.call_fn(f, recv + pos, kws, e)
                done = True
            elif o[0] == "cls":
                res |= self.new_object(o[1], pos, kws, e)
                done = True
            elif o[0] == "new" and isinstance(o[2], ClassInfo):
                f = o[2].lookup("__call__")
                if isinstance(f, FuncInfo):
                    res |= self.call_fn(f, [{o}] + pos, kws, e)
                    done = True
        if name:
            self.ext(name, e)
            return self.call_builtin(name, e, pos, kws, flat)
        if d is not None:
            self.ext(d, e)
            if d == "copy.copy":
                n = self.site(e, self.one_class(flat))
                self.pt.copy(n, flat)
                return {n}
            if d.endswith("deepcopy"):
                return {self.site(e, self.one_class(flat))}
            if d.split(".")[-1] in ("shuffle", "heapify", "heappush", "heappop", "insort"):
                self.change(flat, e, None)
            n = self.site(e)
            box = d.split(".")[-1] in CONTAINERS
            self.pt.store(n, ITEMS, flat | self.items(flat) if box else flat)
            return {n} if flat or box else set()
        if isinstance(fn, ast.Attribute):
            recv = self.ev(fn.value)
            unknown = {o for o in recv if not self.members(o, fn.value, fn.attr) or o == MODEL}
            if fn.attr in CHANGES and not self.members_of_new(recv, fn):
                self.change({o for o in unknown if o != MODEL or not done or self.maybe_container(o, fn)}, e, None)
                if fn.attr in INSERTS:
                    put = self.items(flat) if fn.attr in ("extend", "update") else flat
                    for o in unknown:
                        self.pt.store(o, ITEMS, put)
            if fn.attr == "join":
                self.in_order(flat, e)
            if fn.attr == "pop" and not e.args:
                self.in_order(recv, e)
            if fn.attr in SETOPS and unknown:
                n = self.site(e, "set")
                self.pt.store(n, ITEMS, self.items(recv | flat))
                res.add(n)
            if fn.attr in READS | CHANGES:
                for o in unknown:
                    it = self.items({o})
                    if fn.attr == "copy":
                        n = self.site(e, self.cls_of(o))
                        self.pt.copy(n, {o})
                        res.add(n)
                    elif fn.attr in ("get", "pop", "setdefault", "popitem", "popleft", "__getitem__"):
                        res |= it | flat
                    elif fn.attr in ("values", "keys", "items", "__iter__"):
                        n = self.site(e)
                        box = ("new", n[1] + ("item",), None)
                        if fn.attr == "items":
                            self.pt.store(box, ITEMS, it)
                            self.pt.store(n, ITEMS, {box})
                            if MODEL in it:
                                self.pt.store(n, ITEMS, {MODEL})
                        else:
                            self.pt.store(n, ITEMS, it)
                        res.add(n)
        if not done and isinstance(fn, ast.Name) and not callee and fn.id in self.locals and flat:
            self.pt.unresolved.setdefault((self.f, self.text(e)), e)
        return res

    def one_class(self, objs):
        cs = {self.cls_of(o) for o in objs}
        return cs.pop() if len(cs) == 1 else None

    def maybe_container(self, o, fn):
        """the receiver is an attribute or variable that may hold a list or dictionary as well as an object"""
        return not isinstance(fn.value, ast.Name) or fn.value.id != self.me

    def members_of_new(self, recv, fn):
        return bool(recv) and all(o != MODEL and self.members(o, fn.value, fn.attr) for o in recv)

    def call_builtin(self, name, e, pos, kws, flat):
        if name == "getattr":
            res = set()
            if len(e.args) > 1:
                base = pos[0] if pos else set()
                for o in base:
                    names = self.names(e.args[1], self.classes_of(o, e.args[0]))
                    for nm in names:
                        res |= self.e_Attribute(ast.Attribute(value=e.args[0], attr=nm, ctx=ast.Load()))
                    res |= self.pt.everything({o})
            return res | (pos[2] if len(pos) > 2 else set())
        if name in ("setattr", "delattr"):
            at = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else None
            self.change(pos[0] if pos else set(), e, at)
            for o in (pos[0] if pos else ()):
                self.pt.store(o, at, pos[2] if len(pos) > 2 else set())
            return set()
        if name == "vars":
            return pos[0] if pos else set()
        if name == "next":
            self.in_order(pos[0] if pos else set(), e)
            return self.items(pos[0] if pos else set()) | (pos[1] if len(pos) > 1 else set())
        if name in ("min", "max"):
            self.keyed(kws, flat)
            return self.items(flat) | flat
        if name == "map":
            n = self.site(e)
            it = set()
            for a in pos[1:]:
                it |= self.items(a)
            r = set()
            for o in pos[0] if pos else ():
                if o[0] == "fn":
                    r |= self.call_fn(o[1], ([{o[2]}] if o[2] is not None else []) + [it], {}, e)
                elif o[0] == "cls":
                    r |= self.new_object(o[1], [it], {}, e)
            self.pt.store(n, ITEMS, r)
            return {n}
        if name in CONTAINERS:
            n = self.site(e, "set" if name in ("set", "frozenset") else None)
            if name not in ORDERLESS and id(e) not in self.unordered and \
                    not any(ast.dump(a) in self.single for a in e.args):
                self.in_order(flat, e)
            it = self.items(flat)
            self.keyed(kws, flat)
            if name == "filter" and pos:
                self.keyed({"key": pos[0]}, pos[1] if len(pos) > 1 else set())
            self.pt.store(n, ITEMS, it)
            return {n}
        if name == "str":
            self.tostr(flat, e)
            return set()
        if name == "super":
            return self.ev_name(self.me) if self.me else set()
        if name in PURE:
            return set()
        if name == "open":
            return {self.site(e)}
        n = self.site(e)
        self.pt.store(n, ITEMS, flat)
        return {n} if flat else set()

    def keyed(self, kws, flat):
        for o in kws.get("key", ()):
            if o[0] == "fn":
                self.call_fn(o[1], ([{o[2]}] if o[2] is not None else []) + [self.items(flat)], {}, None)

    def names(self, e, classes):
        """attribute names a computed name may be"""
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return [e.value]
        pre = suf = ""
        if isinstance(e, ast.JoinedStr):
            if e.values and isinstance(e.values[0], ast.Constant):
                pre = e.values[0].value
            if e.values and isinstance(e.values[-1], ast.Constant) and len(e.values) > 1:
                suf = e.values[-1].value
        elif isinstance(e, ast.BinOp) and isinstance(e.left, ast.Constant):
            pre = str(e.left.value)
        res = set()
        for c in classes or ():
            for k in c.mro:
                if isinstance(k, ClassInfo):
                    res |= {n for n in k.methods if n.startswith(pre) and n.endswith(suf)}
        return sorted(res)


class _At:
    """static lookup in another module"""
    cls_attr = Scope.cls_attr

    def __init__(self, scope, m):
        self.prog = scope.prog
        self.m = m
        self.pt = scope.pt
