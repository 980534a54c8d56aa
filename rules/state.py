"""
State of a reader or writer: attributes that operations change are set anew by every
operation before they are read (upward exposed reads, over the class's call graph).
"""
import ast
from sa.program import ClassInfo
from rules import shared

CHANGES = shared.CHANGES


class Machine:
    def __init__(self, prog, cls):
        self.prog = prog
        self.cls = cls
        self.methods = {}
        for c in cls.mro:
            if isinstance(c, ClassInfo):
                for n, f in c.methods.items():
                    self.methods.setdefault(n, f)
        self.values = set()       # methods used as values: targets of calls through tables
        self.state = {}
        for f in self.methods.values():
            me = f.pos[0] if f.pos and not f.is_static else None
            if me is None:
                continue
            called = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and self.own(n.func, me):
                    called.add(n.func)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and n not in called and self.own(n, me) and n.attr in self.methods \
                        and not self.methods[n.attr].is_property:
                    self.values.add(n.attr)
        ctor = self.only_ctor()
        for f in self.methods.values():
            if f in ctor or not f.pos or f.is_static:
                continue
            for a in self.changed(f):
                self.state.setdefault(a, f)
        self.memo = {}
        self.exposed = {}

    def own(self, e, me):
        return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == me

    def only_ctor(self):
        """the constructors and the helpers only they call"""
        res = {c.methods["__init__"] for c in self.cls.mro if isinstance(c, ClassInfo) and "__init__" in c.methods}
        callers = {}
        for f in list(self.methods.values()) + list(res):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and n.attr in self.methods:
                    callers.setdefault(self.methods[n.attr], set()).add(f)
        grown = True
        while grown:
            grown = False
            for g, cs in callers.items():
                if g not in res and g.name.startswith("_") and cs <= res:
                    res.add(g)
                    grown = True
        return res

    def changed(self, f):
        me = f.pos[0]
        out = set()

        def root(e):
            while isinstance(e, (ast.Attribute, ast.Subscript)):
                if self.own(e, me):
                    return e.attr
                e = e.value
            return None
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                r = root(n)
                if r is not None:
                    out.add(r)
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in CHANGES:
                    r = root(n.func.value)
                    if r is not None:
                        out.add(r)
                if isinstance(n.func, ast.Name) and n.func.id in ("next", "setattr") and n.args:
                    r = root(n.args[0])
                    if r is not None:
                        out.add(r)
                    elif n.func.id == "setattr" and isinstance(n.args[0], ast.Name) and n.args[0].id == me and len(n.args) > 1 \
                            and isinstance(n.args[1], ast.Constant):
                        out.add(n.args[1].value)
        # what is filled through a local name
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and self.own(n.value, me):
                x = n.targets[0].id
                for k in ast.walk(f.node):
                    if isinstance(k, ast.Call) and isinstance(k.func, ast.Attribute) and k.func.attr in CHANGES \
                            and isinstance(k.func.value, ast.Name) and k.func.value.id == x \
                            or isinstance(k, ast.Subscript) and isinstance(k.ctx, (ast.Store, ast.Del)) \
                            and isinstance(k.value, ast.Name) and k.value.id == x:
                        out.add(n.value.attr)
        return out

    # ------------------------------------------------------------ execution
    def entry(self, f):
        self.exposed = {}
        self.method(f, frozenset(), (f,))
        return self.exposed

    def method(self, f, done, chain):
        """attributes surely set after the method, given those set before"""
        key = (f, done)
        if key in self.memo:
            out, exp = self.memo[key]
            for a, w in exp.items():
                self.exposed.setdefault(a, w)
            return out
        self.memo[key] = (done, {})
        before = self.exposed
        self.exposed = {}
        st = Flow(self, f, chain)
        out = st.body(f.node.body, done)
        outs = [x for x in [out] + st.returns if x is not None]
        res = frozenset.intersection(*outs) if outs else None
        self.memo[key] = (res if res is not None else done, self.exposed)
        for a, w in self.exposed.items():
            before.setdefault(a, w)
        self.exposed = before
        return self.memo[key][0]


class Flow:
    def __init__(self, m, f, chain):
        self.m = m
        self.f = f
        self.me = f.pos[0] if f.pos and not f.is_static else None
        self.chain = chain
        self.returns = []
        self.breaks = []

    def read(self, a, node, done):
        if a in self.m.state and a not in done:
            self.m.exposed.setdefault(a, (self.f, node.lineno))

    def call(self, g, done):
        if len(self.chain) > 60:
            return done
        r = self.m.method(g, done, self.chain + (g,))
        return r

    def expr(self, e, done):
        if e is None:
            return done
        if isinstance(e, ast.Call):
            fn = e.func
            own = self.me is not None and self.m.own(fn, self.me)
            sup = isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) \
                and fn.value.func.id == "super"
            kill = None
            if not own and not sup:
                if isinstance(fn, ast.Attribute) and fn.attr == "clear" and self.me is not None and self.m.own(fn.value, self.me):
                    kill = fn.value.attr
                else:
                    done = self.expr(fn, done)
            for x in list(e.args) + [k.value for k in e.keywords]:
                done = self.expr(x, done)
            if kill is not None:
                return done | {kill}
            if own and fn.attr in self.m.methods:
                return self.call(self.m.methods[fn.attr], done)
            if own:
                self.read(fn.attr, fn, done)
                return self.dynamic(done)
            if sup and self.f.cls is not None:
                g = self.m.cls.lookup(fn.attr, self.f.cls)
                return self.call(g, done) if g is not None else done
            if isinstance(fn, ast.Name) and fn.id == "setattr" and len(e.args) == 3 and isinstance(e.args[0], ast.Name) \
                    and e.args[0].id == self.me and isinstance(e.args[1], ast.Constant):
                return done | {e.args[1].value}
            if isinstance(fn, (ast.Name, ast.Subscript, ast.Call)) and not self.known(fn):
                return self.dynamic(done)
            return done
        if isinstance(e, ast.Attribute):
            if self.me is not None and self.m.own(e, self.me):
                g = self.m.methods.get(e.attr)
                if g is not None and g.is_property:
                    return self.call(g, done)
                self.read(e.attr, e, done)
                return done
            return self.expr(e.value, done)
        if isinstance(e, ast.BoolOp):
            done = self.expr(e.values[0], done)
            for v in e.values[1:]:
                self.expr(v, done)
            return done
        if isinstance(e, ast.IfExp):
            done = self.expr(e.test, done)
            return self.expr(e.body, done) & self.expr(e.orelse, done)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            d = done
            for g in e.generators:
                d = self.expr(g.iter, d)
                for c in g.ifs:
                    d = self.expr(c, d)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.expr(x, d)
            return done
        if isinstance(e, ast.Lambda):
            self.expr(e.body, done)
            return done
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                done = self.expr(c, done)
        return done

    def known(self, fn):
        if not isinstance(fn, ast.Name):
            return False
        b = self.m.prog.lookup(self.f.module, fn.id)
        import builtins
        return b is not None or hasattr(builtins, fn.id)

    def dynamic(self, done):
        """a call through a table or variable: any method that is used as a value"""
        key = ("dyn", done)
        if key not in self.m.memo:
            self.m.memo[key] = (done, {})
            before = self.m.exposed
            self.m.exposed = {}
            for n in sorted(self.m.values):
                self.call(self.m.methods[n], done)
            self.m.memo[key] = (done, self.m.exposed)
            self.m.exposed = before
        for a, w in self.m.memo[key][1].items():
            self.m.exposed.setdefault(a, w)
        return done

    def store(self, t, done):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                done = self.store(x, done)
            return done
        if isinstance(t, ast.Attribute) and self.me is not None and self.m.own(t, self.me):
            return done | {t.attr}
        if isinstance(t, (ast.Attribute, ast.Subscript)):
            done = self.expr(t.value, done)
            if isinstance(t, ast.Subscript):
                done = self.expr(t.slice, done)
        if isinstance(t, ast.Starred):
            return self.store(t.value, done)
        return done

    def body(self, stmts, done):
        for s in stmts:
            if done is None:
                return None
            done = self.stmt(s, done)
        return done

    @staticmethod
    def meet(*xs):
        xs = [x for x in xs if x is not None]
        return frozenset.intersection(*xs) if xs else None

    def stmt(self, s, done):
        if isinstance(s, ast.Assign):
            done = self.expr(s.value, done)
            for t in s.targets:
                done = self.store(t, done)
            return done
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return done
            return self.store(s.target, self.expr(s.value, done))
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Attribute) and self.me is not None and self.m.own(s.target, self.me):
                self.read(s.target.attr, s.target, done)
            return self.store(s.target, self.expr(s.value, done))
        if isinstance(s, ast.Return):
            d = self.expr(s.value, done)
            self.returns.append(d)
            return None
        if isinstance(s, ast.Raise):
            self.expr(s.exc, done)
            return None
        if isinstance(s, ast.If):
            done = self.expr(s.test, done)
            return self.meet(self.body(s.body, done), self.body(s.orelse, done))
        if isinstance(s, (ast.For, ast.While)):
            done = self.expr(s.iter if isinstance(s, ast.For) else s.test, done)
            saved, self.breaks = self.breaks, []
            self.body(s.body, done)
            brk, self.breaks = self.breaks, saved
            return self.meet(self.body(s.orelse, done), *brk)
        if isinstance(s, (ast.Break, ast.Continue)):
            if isinstance(s, ast.Break):
                self.breaks.append(done)
            return None
        if isinstance(s, ast.With):
            for i in s.items:
                done = self.expr(i.context_expr, done)
                if i.optional_vars is not None:
                    done = self.store(i.optional_vars, done)
            return self.body(s.body, done)
        if isinstance(s, ast.Try):
            out = self.body(s.body, done)
            if out is not None:
                out = self.body(s.orelse, out)
            outs = [out] + [self.body(h.body, done) for h in s.handlers]
            r = self.meet(*outs)
            if s.finalbody:
                fin = self.body(s.finalbody, done)
                if r is None or fin is None:
                    return None
                return r | fin
            return r
        if isinstance(s, ast.Match):
            done = self.expr(s.subject, done)
            return self.meet(done, *[self.body(c.body, done) for c in s.cases])
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            for n in ast.walk(s):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and self.me is not None and self.m.own(n, self.me):
                    self.read(n.attr, n, done)
            return done
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                done = self.expr(c, done)
        return done


def machine(s, rep, cls, prefixes):
    m = Machine(s.prog, cls)
    rep.count("methods", len(m.methods))
    rep.count("attributes changed by operations", len(m.state))
    entries = [f for n, f in m.methods.items() if not n.startswith("_") and n.startswith(prefixes)]
    for f in sorted(entries, key=lambda f: f.name):
        rep.count("operations")
        exp = m.entry(f)
        for a in sorted(m.state):
            if a in exp:
                g, line = exp[a]
                rep.find(f"kept:{cls.name}.{f.name}:{a}",
                         f"{cls.name}.{f.name} uses {a} (in {g.qual}) before it sets it: its value is left from the operation before",
                         f"{g.module.relpath}:{line}")
            else:
                rep.ok()
        rep.sample(f"{cls.name}.{f.name}: sets {sorted(m.state)} before use")
    for f in m.methods.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Global):
                rep.find(f"global:{f.qual}:{','.join(n.names)}", f"{f.qual} assigns the module variable {n.names[0]}",
                         f"{f.module.relpath}:{n.lineno}")
    return m


class Sub:
    """forwards the findings of another rule about one of the modules"""

    def __init__(self, rep, want):
        self.rep, self.want = rep, want

    def find(self, key, message, where="", detail=""):
        if self.want(where):
            self.rep.find(key, message, where, detail)

    def skip(self, what):
        pass

    def ok(self, n=1):
        self.rep.ok(n)

    def count(self, name, n=1):
        pass


def run(s, rep):
    rd, wr = s.prog.cls("Reader"), s.prog.cls("Writer")
    machine(s, rep, rd, ("read",))
    machine(s, rep, wr, ("write",))
    mods = {c.module.relpath for c in list(rd.mro) + list(wr.mro) if isinstance(c, ClassInfo)}
    esc = shared.Escape(s.prog)
    sub = Sub(rep, lambda where: where.split(":")[0] in mods or "enumeration" in where or "base" in where)
    shared.defaults(s, sub, esc)
    shared.module_level(s, sub, esc)
    shared.class_level(s, sub, esc)
