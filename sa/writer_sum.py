"""
Writer summaries: for every writer method that serialises one element, the
XML template it can emit (tags, attributes, text, nested units) with the
condition under which each part is emitted.
"""
import ast
from xml.sax.saxutils import escape, quoteattr, unescape
from .terms import (mk, C, NONE, TRUE, FALSE, is_const, cval, sym, conj, disj, neg, walk, show, data_walk)
from .program import ClassInfo, AnalysisBroken
from .ctor import CtorAnalysis
from .interp import Interp, Policy, State, HObj, IfEv, LoopEv, Ev

SELF = sym("self")
# library functions that escape text: the characters they replace, whether they add quotes
ESCAPERS = {
    "xml.sax.saxutils.escape": ("&<>", False),
    "xml.sax.saxutils.quoteattr": ("&<>\"", True),
    "html.escape": ("&<>\"'", False),
}
UNQUOTE = {"&quot;": '"', "&apos;": "'", "&#34;": '"', "&#39;": "'", "&#x27;": "'", "&#x22;": '"',
           "&#10;": "\n", "&#13;": "\r", "&#9;": "\t"}


class El:
    def __init__(self, tag, guard, loc):
        self.tag = tag            # str or term
        self.guard = guard
        self.attrs = []           # (guard, name, value term)
        self.children = []
        self.loc = loc
        self.open = True

    @property
    def tagname(self):
        return self.tag if isinstance(self.tag, str) else show(self.tag)

    def __repr__(self):
        return f"<{self.tagname} {self.attrs} [{show(self.guard)}]>{self.children}"


class Txt:
    def __init__(self, term, guard, loc):
        self.term = term
        self.guard = guard
        self.loc = loc

    def __repr__(self):
        return f"T({show(self.term)} [{show(self.guard)}])"


class Ws:
    def __init__(self, guard, loc):
        self.guard = guard
        self.loc = loc

    def __repr__(self):
        return "_"


class UnitCall:
    def __init__(self, key, subject, guard, loc):
        self.key = key            # (FuncInfo, const args tuple)
        self.subject = subject
        self.guard = guard
        self.loc = loc

    def __repr__(self):
        return f"U({self.key[0].name}{self.key[1]} on {show(self.subject)} [{show(self.guard)}])"


class Dispatch:
    def __init__(self, table, key, args, guard, loc):
        self.table = table        # dict field name
        self.key = key
        self.args = args
        self.guard = guard
        self.loc = loc

    def __repr__(self):
        return f"D({self.table} on {[show(a) for a in self.args]} [{show(self.guard)}])"


class Unbalanced(Exception):
    def __init__(self, ev):
        self.ev = ev


def plain(p, quoted=False):
    """the text behind an escaped value"""
    if p.op == "esc" and p.a[1] == quoted:
        return p.a[2]
    if p.op == "phi":
        return mk("phi", p.a[0], plain(p.a[1], quoted), plain(p.a[2], quoted))
    return p


def push_rest(evs, target):
    """move the events that follow the conditional `target` into its arms"""
    def go(lst):
        for i, e in enumerate(lst):
            rest = lst[i + 1:]
            if e is target:
                if rest:
                    return True, lst[:i] + [IfEv(e.cond, e.a + rest, e.b + rest)]
                return True, None
            if isinstance(e, IfEv):
                for arm in (0, 1):
                    found, new = go(e.b if arm else e.a)
                    if found:
                        if new is not None:
                            return True, lst[:i] + [IfEv(e.cond, e.a if arm else new, new if arm else e.b)] + rest
                        if rest:
                            return True, lst[:i] + [IfEv(e.cond, e.a + rest, e.b + rest)]
                        return True, None
            elif isinstance(e, LoopEv):
                found, new = go(e.body)
                if found:
                    return True, None if new is None else lst[:i] + [LoopEv(e.it, new)] + rest
        return False, None
    return go(evs)[1]


class Problem:
    def __init__(self, rule, func, what, loc):
        self.rule = rule
        self.func = func
        self.what = what
        self.loc = loc

    def __repr__(self):
        return f"{self.rule}: {self.func}: {self.what} @{self.loc}"


class WriterPolicy(Policy):
    def __init__(self, wa):
        self.wa = wa
        self.subjects = set()

    OPAQUE = {"enum_to_xml"}
    closed_types = True
    none_by_type = True
    text_needs = True

    def may_be_none(self, t, ip, st):
        """the value is declared to be possibly absent"""
        if t is NONE:
            return True
        if t.op == "phi":
            return any(x is NONE or self.may_be_none(x, ip, st) for x in t.a[1:])
        return t.op in ("attr", "elem") and "None" in (ip.hint_types(t, st) or ())

    def attr_type_first(self, cls, name):
        return self.wa.ca.attr_type_first(cls, name)

    def attr_absent(self, cls, name):
        return self.wa.ca.attr_absent(cls, name)

    def call(self, ip, f, selfterm, pos, kws, st, node):
        if f.cls is None and f.name in self.OPAQUE:
            args = [ip.refine(p, st) for p in pos]
            if args:
                ip.need(args[0], f.name + "()", st, node)
            for a in args:
                for k in set(ip.hint_types(a, st) or ()) | set(ip.certain_types(a, st) or ()):
                    if isinstance(k, ClassInfo) and k.is_enum:
                        self.wa.encoded.setdefault(k, ip.frames[-1][0])
            return mk("call", f.name, *args, *[mk("kw", k, v) for k, v in sorted(kws.items())])
        if f.name == "is_empty" and f.cls is not None and f.cls.name == "ARObject" and selfterm is not None \
                and selfterm.op != "obj":
            return mk("truthy", mk("isempty", selfterm, mk("tup")))
        if f.name == "is_empty_with_ignore" and selfterm is not None and selfterm.op != "obj" \
                and f.cls.name == "ARObject":
            a = pos[0] if pos else next(iter(kws.values()), mk("tup"))
            o = st.heap.get(a)
            if o is not None:
                a = mk("tup", *sorted((v for _, v in o.items), key=lambda t: str(t.a)))
            return mk("truthy", mk("isempty", selfterm, a))
        if f.cls is not None and self.wa.writer_cls.is_sub(f.cls):
            alts = self.wa.boundary(ip, f, pos, kws, st)
            if alts is not None and not any(a[3] in self.subjects for a in alts):
                def put(alts):
                    g, fn, cargs, subject = alts[0]
                    if len(alts) == 1 or g is TRUE:
                        return [Ev("unit", ((fn, cargs), subject), getattr(node, "lineno", 0),
                                   ip.frames[-1][0] if ip.frames else None, st.pc)]
                    return [IfEv(g, put([(TRUE,) + alts[0][1:]]), put(alts[1:]))]
                ip.events.extend(put(alts))
                return NONE
        return None

    def mcall(self, ip, recv, name, pos, kws, st, node):
        if name == "__call__" and recv.op == "dget":
            ip.emit("dispatch", recv, tuple(pos), node=node, st=st)
            return NONE
        if name == "__call__" and recv.op == "ext" and recv.a[0] in ESCAPERS and pos:
            chars, quoted = ESCAPERS[recv.a[0]]
            extra = list(pos[1:]) + [kws[k] for k in sorted(kws)]
            if recv.a[0] == "html.escape":
                if extra and extra[0] is FALSE:
                    chars = "&<>"
                elif extra and extra[0] is not TRUE:
                    chars = "&<>"
            elif extra:
                d = ip.plain_dict(extra[0], st)
                if d is None:
                    return None
                for k, v in d.items():
                    if not (is_const(v) and isinstance(k, str) and len(k) == 1 and unescape(cval(v), UNQUOTE) == k):
                        return None
                    chars += k
            return self.esc("".join(sorted(set(chars))), quoted, ip.refine(pos[0], st))
        if name == "replace" and len(pos) == 2 and not kws and all(is_const(p) and isinstance(cval(p), str) for p in pos):
            a, b = cval(pos[0]), cval(pos[1])
            if len(a) == 1 and b.startswith("&") and unescape(b, UNQUOTE) == a:
                return self.replaced(a, recv)
        return None

    def esc(self, chars, quoted, x):
        if x.op == "phi":
            return mk("phi", x.a[0], self.esc(chars, quoted, x.a[1]), self.esc(chars, quoted, x.a[2]))
        if is_const(x) and isinstance(cval(x), str):
            return C(quoteattr(cval(x)) if quoted else escape(cval(x), {c: f"&#{ord(c)};" for c in chars if c not in "&<>"}))
        return mk("esc", chars, quoted, x)

    def replaced(self, ch, x):
        """x with the character ch replaced by its entity"""
        if x.op == "phi":
            return mk("phi", x.a[0], self.replaced(ch, x.a[1]), self.replaced(ch, x.a[2]))
        if is_const(x) and isinstance(cval(x), str):
            return C(escape(cval(x))) if ch == "&" else C(cval(x).replace(ch, f"&#{ord(ch)};"))
        if x.op == "esc" and not x.a[1] and ch != "&":
            return mk("esc", "".join(sorted(set(x.a[0]) | {ch})), False, x.a[2])
        return mk("esc", ch, False, x)

    def truth(self, ip, t, st):
        if t.op == "esc":
            return TRUE if t.a[1] else ip.truth(t.a[2], st)
        return None

    def certain_type(self, ip, t, st):
        if t.op == "esc":
            return {"str"}
        return None


class WriterAnalysis:
    def __init__(self, prog):
        self.prog = prog
        self.mod = prog.module("autosar.xml.writer")
        self.writer_cls = prog.cls("Writer", "autosar.xml.writer")
        self.arobject = prog.cls("ARObject", "autosar.xml.base")
        self.ca = CtorAnalysis(prog)
        self.units = {}
        self.encoded = {}         # enumeration -> a function that encodes it
        self.problems = []
        self.imprecise = []
        self._init_state()
        self.ws_fields = self._ws_fields()
        self.sink_fields = self._sink_fields()

    # ---------------------------------------------------------------- setup
    def methods(self):
        res = {}
        for c in reversed([c for c in self.writer_cls.mro if isinstance(c, ClassInfo)]):
            res.update(c.methods)
        return res

    def _init_state(self):
        ip = Interp(self.prog, Policy())
        st = State()
        st.heap[SELF] = HObj("inst", self.writer_cls, SELF)
        ip.sym_certain[SELF] = {self.writer_cls}
        init = self.writer_cls.lookup("__init__")
        if init is None:
            raise AnalysisBroken("Writer.__init__ not found")
        ip.run(init, {"self": SELF, **{p: sym(p) for p in init.pos[1:]}}, st)
        self.tables = {}
        obj = st.heap[SELF]
        assigned = set()
        mutated = set()
        for f in self.all_methods():
            if f.name == "__init__":
                continue
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    for t in ts:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                            assigned.add(t.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                        "append", "pop", "clear", "extend", "insert", "update") \
                        and isinstance(n.func.value, ast.Attribute) \
                        and isinstance(n.func.value.value, ast.Name) and n.func.value.value.id == "self":
                    mutated.add(n.func.value.attr)
        self.assigned = assigned
        for f, v in list(obj.entries.items()):
            if f in assigned:
                e = dict(obj.entries)
                del e[f]
                obj = HObj("inst", obj.cls, obj.base, (), e, obj.meta)
            elif f in mutated and v.op == "obj" and st.heap[v].kind == "list":
                st.heap[v] = HObj("list", None, mk("attr", SELF, f), ())
            elif v.op == "obj" and st.heap[v].kind == "dict":
                self.tables[f] = v
        st.heap[SELF] = obj
        self.init_heap = dict(st.heap)
        self.init_ip = ip
        if not self.tables:
            raise AnalysisBroken("no dispatch tables found in Writer")

    def table_entries(self, name):
        o = self.init_heap[self.tables[name]]
        return {cval(k): v for k, v in o.entries.items() if is_const(k)}

    def all_methods(self):
        return [f for c in self.writer_cls.mro if isinstance(c, ClassInfo) for f in c.methods.values()]

    def _ws_fields(self):
        vals = {}
        for f in self.all_methods():
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    for t in ts:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                            vals.setdefault(t.attr, []).append(n.value)
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute):
                    vals.setdefault(n.target.attr, []).append(n.value)

        def ws(e, depth=0):
            if depth > 5:
                return False
            if isinstance(e, ast.Constant):
                return isinstance(e.value, str) and e.value.strip() == ""
            if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
                return ws(e.left, depth + 1) or ws(e.right, depth + 1)
            if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
                return ws(e.left, depth + 1) and ws(e.right, depth + 1)
            if isinstance(e, ast.IfExp):
                return ws(e.body, depth + 1) and ws(e.orelse, depth + 1)
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self":
                return e.attr in vals and all(ws(v, depth + 1) for v in vals[e.attr])
            if isinstance(e, ast.Subscript):
                return ws(e.value, depth + 1)
            return False
        return {k for k, v in vals.items() if all(ws(x) for x in v)}

    def is_ws(self, t):
        if is_const(t):
            return isinstance(cval(t), str) and cval(t).strip() == ""
        if t.op == "attr":
            return t.a[0] is SELF and t.a[1] in self.ws_fields
        if t.op == "bin" and t.a[0] == "Mult":
            return self.is_ws(t.a[1]) or self.is_ws(t.a[2])
        if t.op == "phi":
            return self.is_ws(t.a[1]) and self.is_ws(t.a[2])
        if t.op == "fstr":
            return all(self.is_ws(x) for x in t.a)
        if t.op == "slice":
            return self.is_ws(t.a[0])
        if t.op == "loopvar":
            return t.a[1].rsplit(".", 1)[-1] in self.ws_fields
        return False

    SINKS = {"open", "StringIO"}

    def _sink_fields(self):
        """instance attributes that hold the output stream"""
        res = set()
        for f in self.all_methods():
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" \
                                and any(isinstance(c, ast.Call) and ast.unparse(c.func).split(".")[-1] in self.SINKS
                                        for c in ast.walk(n.value)):
                            res.add(t.attr)
        return res

    def is_sink(self, t):
        if t.op == "attr":
            return t.a[0] is SELF and t.a[1] in self.sink_fields
        return t.op == "call" and isinstance(t.a[0], str) and t.a[0].split(".")[-1] in self.SINKS or t.op == "open"

    # ---------------------------------------------------------------- boundary
    def subject_param(self, f):
        ps = [p for p in f.pos if p != "self"]
        for p in ps:
            an = f.annotation(p)
            if an is not None:
                ts = self.prog.ann_types(an, f.module) - {"None"}
                if ts and all(isinstance(x, ClassInfo) and x.is_sub(self.arobject) for x in ts):
                    return p
        # assert isinstance(p, C)
        for s in f.node.body[:4]:
            if isinstance(s, ast.Assert) and isinstance(s.test, ast.Call) and ast.unparse(s.test.func) == "isinstance" \
                    and isinstance(s.test.args[0], ast.Name) and s.test.args[0].id in ps:
                ts = self.prog.ann_types(s.test.args[1], f.module)
                if ts and all(isinstance(x, ClassInfo) and x.is_sub(self.arobject) for x in ts):
                    return s.test.args[0].id
        return None

    def returns_value(self, f, depth=0):
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Return) or n.value is None or isinstance(n.value, ast.Constant) and n.value.value is None:
                continue
            v = n.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) \
                    and v.func.value.id == "self" and f.cls is not None and depth < 4:
                g = f.cls.lookup(v.func.attr)
                if g is not None and g is not f and not self.returns_value(g, depth + 1):
                    continue
            return True
        return False

    def boundary(self, ip, f, pos, kws, st):
        sp = self.subject_param(f)
        if sp is None or self.returns_value(f):
            return None
        params = [p for p in f.pos if p != "self"]
        vals = dict(zip(params, pos))
        vals.update({k: v for k, v in kws.items() if k in params})
        subj = vals.get(sp)
        if subj is None:
            return None
        subj = ip.refine(subj, st)
        cargs = []
        for p in params:
            if p == sp:
                continue
            if p in vals:
                v = ip.refine(vals[p], st)
            elif p in f.defaults and isinstance(f.defaults[p], ast.Constant):
                v = C(f.defaults[p].value)
            else:
                return None
            cargs.append((p, v))
        alts = [(TRUE, ())]
        for p, v in cargs:
            leaves = list(self.leaves(v, conj(*st.pc)))
            if not leaves or not all(is_const(x) for _, x in leaves) or len(alts) * len(leaves) > 8:
                return None
            alts = [(conj(g, g2), c + ((p, x),)) for g, c in alts for g2, x in leaves]
        alts = [(g, f, c, subj) for g, c in alts if g is not FALSE]
        return alts or None

    def leaves(self, v, pc, guard=TRUE):
        """(guard, leaf) of a merged value on the current path"""
        if v.op == "phi":
            for c, x in ((v.a[0], v.a[1]), (neg(v.a[0]), v.a[2])):
                g = conj(guard, c)
                if conj(pc, g) is not FALSE:
                    yield from self.leaves(x, pc, g)
            return
        yield guard, v

    # ---------------------------------------------------------------- units
    def unit(self, f, cargs=()):
        key = (f, cargs)
        if key in self.units:
            return self.units[key]
        u = WUnit(self, f, cargs)
        self.units[key] = u
        u.analyse()
        return u

    def classes_for(self, f, depth=0):
        sp = self.subject_param(f)
        if sp is None:
            return set()
        an = f.annotation(sp)
        ts = self.prog.ann_types(an, f.module) - {"None", "any"} if an is not None else set()
        for s in ast.walk(f.node):
            if isinstance(s, ast.Assert) and isinstance(s.test, ast.Call) and ast.unparse(s.test.func) == "isinstance" \
                    and isinstance(s.test.args[0], ast.Name) and s.test.args[0].id == sp:
                t2 = self.prog.ann_types(s.test.args[1], f.module)
                t2 = {x for x in t2 if isinstance(x, ClassInfo)}
                if t2:
                    return t2
        ts = {x for x in ts if isinstance(x, ClassInfo)}
        # what the object is handed on to may say what it is, against the annotation
        for s in ast.walk(f.node) if depth < 3 else ():
            if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and isinstance(s.func.value, ast.Name) \
                    and s.func.value.id == "self" and any(isinstance(a, ast.Name) and a.id == sp for a in s.args) and f.cls is not None:
                g = f.cls.lookup(s.func.attr)
                if g is None or g is f or self.subject_param(g) is None or not s.args or not isinstance(s.args[0], ast.Name) \
                        or s.args[0].id != sp or list(g.pos).index(self.subject_param(g)) != 1:
                    continue
                t2 = self.classes_for(g, depth + 1) if self.asserts_class(g) else set()
                if t2 and not any(x.is_sub(y) for x in ts for y in t2):
                    return t2
        return ts

    def asserts_class(self, f):
        sp = self.subject_param(f)
        return any(isinstance(s, ast.Call) and ast.unparse(s.func) == "isinstance" and s.args
                   and isinstance(s.args[0], ast.Name) and s.args[0].id == sp for s in ast.walk(f.node))

    def analyse_all(self):
        """analyse every unit reachable from the dispatch tables and the document writer"""
        todo = []
        for tname, t in self.tables.items():
            for k, v in self.table_entries(tname).items():
                if v.op == "bound":
                    todo.append((v.a[1], ()))
        seen = set()
        for key in todo:
            f = key[0]
            if self.subject_param(f) is None:
                continue
            params = [p for p in f.pos if p not in ("self", self.subject_param(f))]
            cargs = []
            for p in params:
                if p in f.defaults and isinstance(f.defaults[p], ast.Constant):
                    cargs.append((p, C(f.defaults[p].value)))
                else:
                    cargs.append((p, sym(p)))
            self.unit(f, tuple(cargs))
        work = list(self.units.values())
        while work:
            u = work.pop()
            if u.key in seen:
                continue
            seen.add(u.key)
            for n in u.all_nodes():
                if isinstance(n, UnitCall):
                    if n.key not in self.units:
                        work.append(self.unit(*n.key))
                    elif n.key not in seen:
                        work.append(self.units[n.key])
        return self.units


class WUnit:
    def __init__(self, wa, f, cargs):
        self.wa = wa
        self.f = f
        self.cargs = cargs
        self.key = (f, cargs)
        self.roots = []
        self.sinks = []           # (where in the markup, term, pending text, guard, location)
        self.events = []
        self.problems = []
        self.imprecise = []
        self.subject = None
        self.raises = []
        self.warns = []
        self.dead = False

    @property
    def name(self):
        c = ",".join(f"{p}={show(v)}" for p, v in self.cargs if not (p == "inline"))
        return f"{self.f.qual}({c})" if c else self.f.qual

    def analyse(self):
        wa = self.wa
        pol = WriterPolicy(wa)
        ip = Interp(wa.prog, pol)
        ip.next_id = 100000
        st = State(heap=dict(wa.init_heap))
        ip.sym_certain[SELF] = {wa.writer_cls}
        sp = wa.subject_param(self.f)
        args = {"self": SELF}
        for p in self.f.pos:
            if p == "self":
                continue
            args[p] = dict(self.cargs).get(p, sym(p))
        if sp is not None:
            self.subject = sym("elem")
            args[sp] = self.subject
            pol.subjects.add(self.subject)
            ts = set(wa.classes_for(self.f))
            if ts:
                ip.sym_types[self.subject] = ts
        for p in self.f.pos:
            if p in self.f.defaults and p not in dict(self.cargs) and p != "self":
                args[p] = ip.default_value(self.f, self.f.defaults[p], st) if False else args[p]
        val, st2, ev = ip.run(self.f, args, st)
        self.dead = val is None
        self.events = ev
        self.imprecise = ip.imprecise
        self.ip = ip
        self.final = st2
        # tag stack balance
        self.stack_balance(st2, wa)
        self.parse(ev)

    def stack_balance(self, st, wa):
        for t, o in wa.init_heap.items():
            if o.kind == "list" and o.base is not None and o.base.op == "attr" and o.base.a[0] is SELF:
                n = st.heap.get(t)
                if n is not None and not self.dead and (n.items or n.base not in (o.base, None)):
                    self.problems.append(Problem(
                        "open-tag-stack", self.name,
                        f"returns with {o.base.a[1]} changed: {[show(v) for _, v in n.items] or 'popped below entry'}",
                        self.f.where))

    # ---------------------------------------------------------------- parser
    def parse(self, evs):
        base = (list(self.problems), list(self.imprecise), list(self.raises))
        evs0 = evs
        for attempt in range(25):
            lx = Lex()
            lx.stack = []
            self.roots = []
            self.sinks = []
            self.problems, self.imprecise, self.raises = (list(x) for x in base)
            self.strict = attempt < 24
            try:
                self._proc(evs, lx, TRUE)
                break
            except Unbalanced as e:
                evs2 = push_rest(evs, e.ev)
                if evs2 is None or evs2 is evs:
                    self.strict = False
                    lx = Lex()
                    lx.stack = []
                    self.roots = []
                    self.sinks = []
                    self.problems, self.imprecise, self.raises = (list(x) for x in base)
                    self._proc(evs0, lx, TRUE)
                    break
                evs = evs2
        if lx.mode != "content":
            self.problems.append(Problem("malformed", self.name, f"ends inside markup ({lx.mode})", self.f.where))
        for e in lx.stack:
            self.problems.append(Problem("unclosed", self.name, f"<{e.tagname}> is opened but not closed",
                                         e.loc))

    def loc(self, ev):
        f = ev.func
        return f"{f.module.relpath}:{ev.line} ({f.qual})" if f is not None else str(ev.line)

    def _proc(self, evs, lx, guard):
        """returns True when the path is dead (raises)"""
        for e in evs:
            if isinstance(e, IfEv):
                ga = conj(guard, e.cond)
                gb = conj(guard, neg(e.cond))
                if ga is FALSE or gb is FALSE:
                    if self._proc(e.b if ga is FALSE else e.a, lx, guard):
                        return True
                    continue
                a = lx.copy()
                b = lx.copy()
                da = self._proc(e.a, a, ga)
                db = self._proc(e.b, b, gb)
                if da and db:
                    return True
                if da:
                    lx.set(b)
                elif db:
                    lx.set(a)
                else:
                    self._merge(lx, a, b, e)
            elif isinstance(e, LoopEv):
                a = lx.copy()
                self._proc(e.body, a, conj(guard, mk("loop", e.it)))
                if [id(x) for x in a.stack] != [id(x) for x in lx.stack] or a.mode != lx.mode:
                    self.problems.append(Problem(
                        "loop-unbalanced", self.name,
                        f"open elements differ before/after one iteration over {show(e.it)}: "
                        f"{[x.tagname for x in lx.stack]} vs {[x.tagname for x in a.stack]}", self.f.where))
            elif e.kind == "mcall" and e.data[1] == "write" and self.wa.is_sink(e.data[0]):
                for t in e.data[2]:
                    self._write(t, lx, guard, self.loc(e))
            elif e.kind == "mcall" and e.data[1] == "writelines" and self.wa.is_sink(e.data[0]):
                self.imprecise.append(("writelines", self.f.qual, e.line))
            elif e.kind == "unit":
                self._add(lx, UnitCall(e.data[0], e.data[1], guard, self.loc(e)), self.loc(e))
            elif e.kind == "dispatch":
                tab = None
                for n, t in self.wa.tables.items():
                    if t is e.data[0].a[0]:
                        tab = n
                self._add(lx, Dispatch(tab, e.data[0].a[1], e.data[1], guard, self.loc(e)), self.loc(e))
            elif e.kind == "dyncall":
                self.imprecise.append(("dynamic call", self.f.qual, e.line))
            elif e.kind == "print":
                self.warns.append(guard)
            elif e.kind == "raise":
                self.raises.append((guard, e.data[0], self.loc(e)))
                return True
            elif e.kind == "assert":
                if e.data[0] is FALSE:
                    self.raises.append((guard, mk("ext", "AssertionError"), self.loc(e)))
                    return True
            elif e.kind in ("badkw", "badpos", "missing", "noattr", "underflow", "popguarded", "keymiss"):
                if e.kind in ("underflow", "popguarded"):
                    self.problems.append(Problem("tag-stack", self.name,
                                                 "closes an element that is not open on every path", self.loc(e)))
                else:
                    self.problems.append(Problem("call", self.name, f"{e.kind} {e.data[1:]}", self.loc(e)))
        return False

    def _merge(self, lx, a, b, e):
        if self.strict and (a.mode != b.mode or a.buf != b.buf or len(a.stack) != len(b.stack) or any(
                x.tag != y.tag for x, y in zip(a.stack, b.stack))):
            raise Unbalanced(e)
        if a.mode != b.mode or a.buf != b.buf or len(a.stack) != len(b.stack):
            self.problems.append(Problem(
                "branch-unbalanced", self.name,
                f"open elements depend on {show(e.cond)}: {[x.tagname for x in a.stack]} vs "
                f"{[x.tagname for x in b.stack]}", self.f.where))
            lx.set(a)
            return
        for x, y in zip(a.stack, b.stack):
            if x is y:
                continue
            if x.tag != y.tag:
                self.problems.append(Problem(
                    "branch-unbalanced", self.name,
                    f"open element differs under {show(e.cond)}: <{x.tagname}> vs <{y.tagname}>", self.f.where))
        merged = []
        for i, (x, y) in enumerate(zip(a.stack, b.stack)):
            if x is y:
                merged.append(x)
                continue
            x.guard = disj(x.guard, y.guard)
            x.attrs.extend(y.attrs)
            x.children.extend(y.children)
            parent = merged[-1].children if merged else self.roots
            if y in parent:
                parent.remove(y)
            merged.append(x)
        lx.set(a)
        lx.stack = merged

    def _add(self, lx, node, loc):
        if lx.mode != "content":
            self.problems.append(Problem("malformed", self.name, f"content emitted inside a tag ({lx.mode})", loc))
        if lx.stack:
            lx.stack[-1].children.append(node)
        else:
            self.roots.append(node)

    def _write(self, t, lx, guard, loc):
        if t.op == "phi":
            a = lx.copy()
            b = lx.copy()
            self._write(t.a[1], a, conj(guard, t.a[0]), loc)
            self._write(t.a[2], b, conj(guard, neg(t.a[0])), loc)
            self._merge(lx, a, b, IfEv(t.a[0], [], []))
            return
        parts = t.a if t.op == "fstr" else (t,)
        if t.op == "fstr" and any(p.op == "phi" for p in parts):
            # distribute a merge whose arms contain markup
            for i, p in enumerate(parts):
                if p.op == "phi" and (self.structural(p) or self.in_tag(parts[:i], lx)
                                      and any(x.op == "fstr" for x in data_walk(p))):
                    from .interp import Interp
                    x = Interp.concat(None, list(parts[:i]) + [p.a[1]] + list(parts[i + 1:]))
                    y = Interp.concat(None, list(parts[:i]) + [p.a[2]] + list(parts[i + 1:]))
                    self._write(mk("phi", p.a[0], x, y), lx, guard, loc)
                    return
        for p in parts:
            self._piece(p, lx, guard, loc)

    @staticmethod
    def in_tag(before, lx):
        """Whether text after these parts stands between a tag's < and >, outside quotes."""
        text = ("<" if lx.mode in ("tag", "attrs") else "") + "".join(
            cval(p) if is_const(p) and isinstance(cval(p), str) else "x" for p in before)
        i = text.rfind("<")
        return i > text.rfind(">") and text.count('"', i) % 2 == 0

    @staticmethod
    def structural(p):
        return any(is_const(x) and isinstance(cval(x), str) and any(ch in cval(x) for ch in "<>\"") for x in data_walk(p))

    def _piece(self, p, lx, guard, loc):
        if is_const(p):
            v = cval(p)
            self._text(v if isinstance(v, str) else str(v), lx, guard, loc)
            return
        if p.op == "fstr":
            for q in p.a:
                self._piece(q, lx, guard, loc)
            return
        raw = p
        p = plain(p, lx.mode == "attrs")
        if not (lx.mode == "attrs" and raw.op == "join" and all(g.op == "gi" for g in raw.a[1:])):
            self.sinks.append((lx.mode, raw, lx.buf, guard, loc))
        if lx.mode == "content":
            if self.wa.is_ws(p):
                self._add(lx, Ws(guard, loc), loc)
            else:
                self._add(lx, Txt(p, guard, loc), loc)
        elif lx.mode == "tag":       # reading tag name
            if lx.buf == "":
                lx.name = p
                lx.mode = "tagname-dyn"
            elif lx.buf == "/":
                lx.name = p
                lx.mode = "close-dyn"
            else:
                self.imprecise.append(("computed tag name", self.f.qual, 0))
                lx.buf += "{}"
        elif lx.mode == "attrs":
            if lx.buf.strip().endswith("="):
                # NAME= followed by value that carries its own quotes
                name = lx.buf.strip()[:-1]
                lx.attrs.append((guard, name, p))
                lx.buf = ""
            elif p.op == "join":
                if all(g.op == "gi" for g in p.a[1:]):
                    for g in p.a[1:]:
                        self._attr_piece(g.a[1], lx, conj(guard, g.a[0]), loc)
                else:
                    lx.attrs.append((guard, None, p))
                    self.imprecise.append(("computed attribute list", self.f.qual, 0))
            elif lx.buf.strip() == "":
                lx.name2 = p
                lx.mode = "attrname-dyn"
            else:
                self.imprecise.append(("computed attribute text", self.f.qual, 0))
        elif lx.mode == "attrval":
            lx.val.append(p)
        else:
            self.imprecise.append((f"dynamic text in {lx.mode}", self.f.qual, 0))

    def _attr_piece(self, t, lx, guard, loc):
        sub = Lex()
        sub.mode = "attrs"
        sub.stack = []
        if t.op == "phi":
            self._attr_piece(t.a[1], lx, conj(guard, t.a[0]), loc)
            self._attr_piece(t.a[2], lx, conj(guard, neg(t.a[0])), loc)
            return
        for q in (t.a if t.op == "fstr" else (t,)):
            self._piece(q, sub, guard, loc)
        lx.attrs.extend(sub.attrs)
        if sub.mode != "attrs" or sub.buf.strip():
            self.problems.append(Problem("malformed", self.name, f"attribute text is not NAME=\"value\": {show(t)}", loc))

    def _text(self, s, lx, guard, loc):
        i = 0
        while i < len(s):
            ch = s[i]
            if lx.mode == "content":
                j = s.find("<", i)
                seg = s[i:] if j < 0 else s[i:j]
                if seg:
                    if seg.strip() == "":
                        self._add(lx, Ws(guard, loc), loc)
                    else:
                        self._add(lx, Txt(C(unescape(seg, UNQUOTE)), guard, loc), loc)
                if j < 0:
                    return
                lx.mode = "tag"
                lx.buf = ""
                lx.attrs = []
                lx.name = None
                i = j + 1
                continue
            if lx.mode in ("tag", "tagname-dyn", "close-dyn"):
                if lx.mode == "tag" and lx.buf == "" and ch in "?!":
                    lx.mode = "pi"
                    i += 1
                    continue
                if ch == ">":
                    self._end_tag(lx, guard, loc, False)
                elif ch == "/" and not (lx.mode == "tag" and lx.buf == ""):
                    if s[i:i + 2] == "/>":
                        self._end_tag(lx, guard, loc, True)
                        i += 1
                    else:
                        lx.buf += ch
                elif ch in " \n\t":
                    if lx.mode == "tag":
                        lx.name = lx.buf
                    lx.closing = lx.mode == "close-dyn"
                    lx.mode = "attrs"
                    lx.buf = ""
                else:
                    lx.buf += ch
                i += 1
                continue
            if lx.mode == "attrname-dyn":
                if ch == "=":
                    i += 1
                    continue
                if ch == '"':
                    lx.buf = lx.name2
                    lx.val = []
                    lx.mode = "attrval"
                i += 1
                continue
            if lx.mode == "attrs":
                if ch == ">":
                    self._end_tag(lx, guard, loc, False)
                elif s[i:i + 2] == "/>":
                    self._end_tag(lx, guard, loc, True)
                    i += 1
                elif ch == '"':
                    lx.val = []
                    lx.mode = "attrval"
                else:
                    lx.buf += ch
                i += 1
                continue
            if lx.mode == "attrval":
                if ch == '"':
                    from .interp import Interp
                    nm = lx.buf
                    if isinstance(nm, str):
                        nm = nm.strip()
                        if not nm.endswith("="):
                            self.problems.append(Problem("malformed", self.name, f"attribute without '=': {nm!r}", loc))
                        nm = nm[:-1].strip()
                    lx.attrs.append((guard, nm, Interp.concat(None, lx.val)))
                    lx.buf = ""
                    lx.mode = "attrs"
                else:
                    lx.val.append(C(ch))
                i += 1
                continue
            if lx.mode == "pi":
                if ch == ">":
                    lx.mode = "content"
                i += 1
                continue
            i += 1

    def _end_tag(self, lx, guard, loc, selfclose):
        if lx.mode == "tag":
            lx.name = lx.buf
            if lx.name.startswith("/"):
                self._close(lx, lx.name[1:], guard, loc)
                return
        elif lx.mode == "close-dyn":
            self._close(lx, lx.name, guard, loc)
            return
        name = lx.name
        if isinstance(name, str) and name.startswith("/"):
            self._close(lx, name[1:], guard, loc)
            return
        if name == "" or name is None:
            self.problems.append(Problem("malformed", self.name, "empty tag name", loc))
        if not isinstance(name, str) and is_const(name):
            name = cval(name)
        el = El(name, guard, loc)
        el.attrs = list(lx.attrs)
        lx.attrs = []
        lx.buf = ""
        lx.mode = "content"
        self._add(lx, el, loc)
        if selfclose:
            el.open = False
        else:
            lx.stack.append(el)

    def _close(self, lx, name, guard, loc):
        lx.mode = "content"
        lx.buf = ""
        if not lx.stack:
            self.problems.append(Problem("mismatch", self.name, f"closes </{name if isinstance(name, str) else show(name)}> "
                                         "that it did not open", loc))
            return
        top = lx.stack[-1]
        if top.tag != name:
            self.problems.append(Problem(
                "mismatch", self.name,
                f"closes </{name if isinstance(name, str) else show(name)}> while <{top.tagname}> is open", loc))
        lx.stack.pop()
        top.open = False

    def all_nodes(self):
        stack = list(self.roots)
        while stack:
            n = stack.pop()
            yield n
            if isinstance(n, El):
                stack.extend(n.children)


class Lex:
    def __init__(self):
        self.mode = "content"
        self.buf = ""
        self.stack = []
        self.attrs = []
        self.name = None
        self.name2 = None
        self.val = []
        self.closing = False

    def copy(self):
        n = Lex()
        n.__dict__.update(self.__dict__)
        n.stack = list(self.stack)
        n.attrs = list(self.attrs)
        n.val = list(self.val)
        return n

    def set(self, o):
        self.__dict__.update(o.__dict__)
        self.stack = list(o.stack)
        self.attrs = list(o.attrs)


def dump(n, ind=0):
    p = "  " * ind
    if isinstance(n, El):
        out = [f"{p}<{n.tagname}> [{show(n.guard)}]"]
        for g, k, v in n.attrs:
            out.append(f"{p}  @{k if isinstance(k, (str, type(None))) else show(k)}={show(v)} [{show(g)}]")
        for c in n.children:
            if not isinstance(c, Ws):
                out.append(dump(c, ind + 1))
        return "\n".join(out)
    return p + repr(n)
