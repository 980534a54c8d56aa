"""
Typestate of file handles. Every function that opens a file, directly or through
methods of its own object, is executed abstractly over the set of handles that are
open; every call may end in an exception. At each exit no handle may be left open.
"""
import ast

NEXT, RET, EXC, BRK, CONT = "next", "return", "error", "break", "continue"
# calls on containers and strings that do not fail on well-typed values
QUIET = {"get", "keys", "items", "values", "copy", "insert", "add", "update", "clear", "append", "extend", "join", "format", "upper", "lower", "strip", "startswith", "endswith", "isoformat"}
OPENERS = {"open", "fdopen", "NamedTemporaryFile", "TemporaryFile", "mkstemp", "SpooledTemporaryFile"}
MANAGED = {"enter_context", "closing", "push"}
EVERYTHING = {"Exception", "BaseException"}
LIMIT = 12


def text(e):
    return ast.unparse(e)


# a state is a set of open handles, each the set of names it is held under; "?" is the value of the current expression
def held(name, st):
    return any(name in h for h in st)


def drop(name, st):
    return frozenset(h for h in st if name not in h)


def bind(names, value, st):
    """assign the handle called value (or none) to names"""
    out = set()
    for h in st:
        g = set(h)
        mine = value in g
        g -= set(names)
        g.discard("?")
        if mine:
            g |= set(names)
        out.add(frozenset(g) if g else frozenset(["a handle"]))
    return frozenset(out)


def settle(st):
    return bind([], None, st) if held("?", st) else st


def is_open(e):
    """the call opens a file"""
    if not isinstance(e, ast.Call):
        return False
    f = e.func
    name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
    if name not in OPENERS:
        return False
    return not (isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "self")


def shared(h):
    return any(x.startswith("self.") or x == "?" for x in h)


class Run:
    """abstract execution of one function: {(exit kind, open handles)}"""

    def __init__(self, an, f, depth=0):
        self.an = an
        self.f = f
        self.depth = depth
        self.rename = {}
        self.body_of = []         # with-bodies waiting for the yield of a context manager

    # --- expressions -------------------------------------------------------
    def calls(self, e):
        """the calls of an expression, innermost first"""
        if e is None:
            return []
        out = []

        def go(n):
            if isinstance(n, (ast.Lambda, ast.FunctionDef)):
                return
            for c in ast.iter_child_nodes(n):
                go(c)
            if isinstance(n, (ast.Call, ast.Subscript, ast.Await)):
                out.append(n)
        go(e)
        return out

    def evaluate(self, e, st, managed=False):
        """exits of evaluating an expression; returned handles stay unnamed under '?'"""
        outs = {(NEXT, st)}
        for c in self.calls(e):
            nxt = set()
            for k, s in outs:
                if k != NEXT:
                    nxt.add((k, s))
                    continue
                nxt |= self.call(c, s, managed)
            outs = nxt
        return outs

    def call(self, c, st, managed):
        if isinstance(c, ast.Subscript):
            return {(NEXT, st), (EXC, st)} if isinstance(c.ctx, ast.Load) and not self.annotation_like(c) else {(NEXT, st)}
        f = c.func
        if is_open(c):
            self.an.sites += 1
            return {(EXC, st), (NEXT, st if managed else st | {frozenset(["?"])})}
        if isinstance(f, ast.Attribute):
            if f.attr in MANAGED and c.args and any(is_open(a) for a in c.args):
                return {(NEXT, drop("?", st)), (EXC, drop("?", st))}
            if f.attr in ("close", "__exit__"):
                h = self.handle(f.value)
                return {(NEXT, drop(h, st))}
            if f.attr in QUIET:
                return {(NEXT, st)}
        g = self.an.target(self.f, c)
        if g is not None and g in self.an.relevant and self.depth < LIMIT:
            return self.inline(g, c, st)
        if isinstance(f, ast.Name) and f.id in MANAGED and c.args and any(is_open(a) for a in c.args):
            return {(NEXT, drop("?", st)), (EXC, drop("?", st))}
        if isinstance(f, ast.Name) and f.id in ("isinstance", "len", "str", "type", "StringIO", "bool", "getattr", "hasattr"):
            return {(NEXT, st)}
        return {(NEXT, st), (EXC, st)}

    def annotation_like(self, c):
        return False

    def inline(self, g, c, st):
        key = (g, frozenset(st))
        memo = self.an.memo
        if key not in memo:
            memo[key] = {(NEXT, st), (EXC, st)}
            r = Run(self.an, g, self.depth + 1)
            passed = frozenset(h for h in st if shared(h))
            outs = r.block(g.node.body, frozenset(frozenset(x for x in h if shared([x])) for h in passed))
            res = set()
            for k, s in outs:
                # handles in local variables of the callee are reported there
                after = {h: frozenset(x for x in h if shared([x])) for h in s}
                now = set()
                for h in after.values():
                    if h:
                        old = next((o for o in passed if o & h), None)
                        now.add(h | frozenset(x for x in old if not shared([x])) if old else h)
                res.add((EXC if k == EXC else NEXT, frozenset(now) | (st - passed)))
            memo[key] = res
        return memo[key]

    def handle(self, e):
        return text(e)

    # --- statements --------------------------------------------------------
    def block(self, stmts, st):
        outs = {(NEXT, frozenset(st))}
        for s in stmts:
            nxt = set()
            for k, x in outs:
                if k != NEXT:
                    nxt.add((k, x))
                else:
                    nxt |= self.stmt(s, x)
            outs = nxt
        return outs

    def then(self, outs, fn):
        res = set()
        for k, s in outs:
            if k == NEXT:
                res |= fn(s)
            else:
                res.add((k, s))
        return res

    def stmt(self, s, st):
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
            value = s.value
            targets = s.targets if isinstance(s, ast.Assign) else [s.target]
            if value is None:
                return {(NEXT, st)}

            def store(x):
                names = [self.handle(t) for t in targets if isinstance(t, (ast.Name, ast.Attribute))]
                src = "?" if held("?", x) else self.handle(value) if isinstance(value, (ast.Name, ast.Attribute)) else None
                return {(NEXT, bind(names, src, x) if x else x)}
            return self.then(self.evaluate(value, st), store)
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Yield) and self.body_of:
                body, run = self.body_of[-1]
                return run.block(body, st)
            return self.then(self.evaluate(s.value, st),
                             lambda x: {(NEXT, settle(x))})
        if isinstance(s, ast.Return):
            if isinstance(s.value, (ast.Name, ast.Attribute)) and held(self.handle(s.value), st):
                return {(RET, frozenset(h | {"?"} if self.handle(s.value) in h else h for h in st))}
            return {((RET if k == NEXT else k), x) for k, x in self.evaluate(s.value, st)}
        if isinstance(s, ast.Raise):
            return {(EXC, x) for k, x in self.evaluate(s.exc, st)}
        if isinstance(s, ast.If):
            pos, neg = self.tests(s.test, st)

            def branch(x):
                r = set()
                if pos:
                    r |= self.block(s.body, x)
                if neg:
                    r |= self.block(s.orelse, x)
                return r
            return self.then(self.evaluate(s.test, st), branch)
        if isinstance(s, (ast.For, ast.While)):
            outs = self.evaluate(s.iter if isinstance(s, ast.For) else s.test, st)
            if isinstance(s, ast.For):
                outs = outs | {(EXC, st)}
            return self.then(outs, lambda x: self.loop(s, x))
        if isinstance(s, ast.With):
            return self.with_(s.items, s.body, st)
        if isinstance(s, ast.Try):
            return self.try_(s, st)
        if isinstance(s, (ast.Break,)):
            return {(BRK, st)}
        if isinstance(s, ast.Continue):
            return {(CONT, st)}
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            return {(NEXT, st)}
        if isinstance(s, ast.Match):
            outs = self.evaluate(s.subject, st)

            def cases(x):
                r = {(NEXT, x)}
                for c in s.cases:
                    r |= self.block(c.body, x)
                return r
            return self.then(outs, cases)
        outs = {(NEXT, st)}
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                outs = self.then(outs, lambda x, e=e: self.evaluate(e, x))
        return outs | ({(EXC, st)} if isinstance(s, ast.Assert) else set())

    def tests(self, t, st):
        """which branches are possible, given that an open handle is not None"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            a, b = self.tests(t.operand, st)
            return b, a
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) \
                and t.comparators[0].value is None and held(self.handle(t.left), st):
            return (True, False) if isinstance(t.ops[0], (ast.IsNot, ast.NotEq)) else (False, True)
        if isinstance(t, (ast.Name, ast.Attribute)):
            if held(self.handle(t), st):
                return True, False
            if isinstance(t, ast.Attribute) and t.attr == "closed" and held(self.handle(t.value), st):
                return False, True
        if isinstance(t, ast.BoolOp):
            parts = [self.tests(v, st) for v in t.values]
            if isinstance(t.op, ast.And):
                return all(p for p, _ in parts), any(n for _, n in parts)
            return any(p for p, _ in parts), all(n for _, n in parts)
        return True, True

    def loop(self, s, st):
        res = set()
        seen = set()
        todo = [frozenset(st)]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            res |= self.block(s.orelse, x)
            for k, y in self.block(s.body, x):
                if k in (NEXT, CONT):
                    todo.append(y)
                elif k == BRK:
                    res.add((NEXT, y))
                else:
                    res.add((k, y))
        return res

    def with_(self, items, body, st):
        if not items:
            return self.block(body, st)
        it = items[0]
        e = it.context_expr
        rest = lambda x: self.with_(items[1:], body, x)   # noqa: E731
        if isinstance(e, (ast.Name, ast.Attribute)) and held(self.handle(e), st):
            return {(k, drop(self.handle(e), x)) for k, x in rest(st)}
        if isinstance(e, ast.Call):
            g = self.an.target(self.f, e)
            if g is not None and g in self.an.relevant and any("contextmanager" in d for d in g.decorators) \
                    and self.depth < LIMIT:
                r = Run(self.an, g, self.depth + 1)
                r.body_of.append(([ast.With(items=items[1:], body=body)] if items[1:] else body, self))
                outs = self.then({(NEXT, st)}, lambda x: r.block(g.node.body, x))
                return {((NEXT if k == RET and not self.returns(body) else k), x) for k, x in outs}
            if is_open(e) or any(is_open(a) for a in e.args):
                self.an.sites += 1
                return {(EXC, st)} | self.then({(NEXT, st)}, rest)
        outs = self.evaluate(e, st)

        def enter(x):
            return rest(drop("?", x))
        return self.then(outs, enter)

    def returns(self, body):
        return any(isinstance(n, ast.Return) for b in body for n in ast.walk(b))

    def try_(self, s, st):
        res = set()
        for k, x in self.block(s.body, st):
            if k == EXC and s.handlers:
                caught = False
                for h in s.handlers:
                    names = [] if h.type is None else [text(t).split(".")[-1] for t in
                                                      (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    res |= self.block(h.body, x)
                    if h.type is None or EVERYTHING & set(names):
                        caught = True
                        break
                if not caught:
                    res.add((EXC, x))
            elif k == NEXT and s.orelse:
                res |= self.block(s.orelse, x)
            else:
                res.add((k, x))
        if not s.finalbody:
            return res
        out = set()
        for k, x in res:
            for k2, y in self.block(s.finalbody, x):
                out.add((k if k2 == NEXT else k2, y))
        return out


class Handles:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.sites = 0
        self.funcs = list(self.all_functions())
        self.callers = {}
        opens = set()
        for f in self.funcs:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    if is_open(n) or isinstance(n.func, ast.Attribute) and n.func.attr == "close":
                        opens.add(f)
                    g = self.target(f, n)
                    if g is not None:
                        self.callers.setdefault(g, set()).add(f)
        self.relevant = set()
        todo = list(opens)
        while todo:
            f = todo.pop()
            if f in self.relevant:
                continue
            self.relevant.add(f)
            todo.extend(self.callers.get(f, ()))

    def all_functions(self):
        for c in self.prog.classes:
            yield from c.methods.values()
            yield from c.setters.values()
        for m in self.prog.modules.values():
            for b in m.env.values():
                if b[0] == "func" and b[1].module is m:
                    yield b[1]

    def target(self, f, c):
        """the project function a call runs: a method of the own object or a module function"""
        fn = c.func
        if isinstance(fn, ast.Attribute) and f.cls is not None and f.pos and isinstance(fn.value, ast.Name) \
                and fn.value.id == f.pos[0]:
            return f.cls.lookup(fn.attr)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) \
                and fn.value.func.id == "super" and f.cls is not None:
            return f.cls.lookup(fn.attr, f.cls)
        if isinstance(fn, ast.Name):
            b = self.prog.lookup(f.module, fn.id)
            return b[1] if b is not None and b[0] == "func" else None
        return None


def run(s, rep):
    an = Handles(s.prog)
    for f in sorted(an.relevant, key=lambda f: f.qual):
        rep.count("functions")
        if any("contextmanager" in d for d in f.decorators):
            continue        # run at each with statement
        outs = Run(an, f).block(f.node.body, frozenset())
        rep.sample(f"{f.qual}: {len(outs)} kinds of exit")
        own = f.name.startswith("_") and an.callers.get(f)
        for k, st in sorted(outs, key=lambda z: (z[0], sorted(map(sorted, z[1])))):
            left = [min(h) for h in st if not (own and shared(h))]
            rep.count("exits")
            if not left:
                rep.ok()
            for h in sorted(left):
                how = "an error" if k == EXC else "its normal end"
                rep.find(f"open:{f.qual}:{'error' if k == EXC else 'end'}",
                         f"{f.qual} can leave the file it opened as {h} open at {how}", f.where)
    rep.counts["open calls"] = sum(1 for f in an.funcs for n in ast.walk(f.node) if is_open(n))
