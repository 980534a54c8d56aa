"""
read(write(x)): the reader's abstract semantics is evaluated on the abstract
document that the writer emits for a model object, attribute by attribute.

For one pair (writer unit W, reader unit R) the reader method is interpreted
with its XML element bound to the element tree W emits for a symbolic object
`elem`.  Child elements that W delegates to another writer unit U on a sub
value s are read back as s itself when R hands them to a reader unit; the pair
of units is queued and decided on its own (coinduction over the element tree).
"""
import ast
from .bdd import MAX_ATOMS
from . import textcodec
from .terms import (T, mk, C, NONE, TRUE, FALSE, is_const, cval, sym, attr, conj, disj, neg, phi, walk, show, subst,
                    data_walk, implies, facts_of, BOOL_OPS, is_cond)
from .program import ClassInfo
from .ctor import leaves as ctor_leaves
from .interp import Interp, State, HObj, IfEv, flat_events, Unreachable
from .writer_sum import El, Txt, Ws, UnitCall, Dispatch
from .reader_sum import ReaderPolicy, RUnit, XML, SELF, is_xml

ELEM = sym("elem")
EMPTY = State()


def rooted(t):
    """t is elem or an access path below it"""
    while t.op in ("attr", "elem", "item"):
        t = t.a[0]
    return t is ELEM


class Node:
    """an abstract element of the written document"""
    __slots__ = ("tag", "guard", "variants", "origin", "unit", "subject", "table", "idx", "term", "kids_")

    def __init__(self, tag, guard, variants, origin, unit=None, subject=None, table=None):
        self.tag = tag
        self.guard = guard
        self.variants = variants      # [(guard, El, subst map)]
        self.origin = origin          # 'el' | 'unit' | 'disp'
        self.unit = unit
        self.subject = subject
        self.table = table
        self.kids_ = None


class Doc:
    """node factory for one writer unit applied to `elem`"""

    def __init__(self, wa, ip=None):
        self.wa = wa
        self.nodes = []
        self.ip = ip
        self._typed = {}
        self.pre = set()

    def typed(self, t):
        """decide the type tests on attributes of the written object from their declared types"""
        r = self._typed.get(t)
        if r is None:
            m = {}
            for x in walk(t):
                if x.op == "inst" and rooted(x.a[0]):
                    y = self.ip.make_inst(x.a[0], x.a[1], EMPTY)
                    if y is not x:
                        m[x] = y
                elif x.op == "truthy" and x.a[0].op == "call":
                    f = x.a[0].a[0]
                    if f == "enum_to_xml":
                        m[x] = TRUE
                    elif f == "str" and len(x.a[0].a) == 2 and rooted(x.a[0].a[1]):
                        y = x.a[0].a[1]
                        h = self.ip.certain_types(y, EMPTY)
                        if h and "any" not in h:
                            m[x] = disj(neg(mk("nn", y)), mk("truthy", y)) if h <= {"str", "None"} else \
                                TRUE if "str" not in h else \
                                disj(neg(mk("inst", y, mk("ext", "str"))), mk("truthy", y))
                        else:
                            num = [z for z in walk(t) if z.op == "inst" and z.a[0] is y and z.a[1].op == "ext"
                                   and z.a[1].a[0] in ("int", "float")]
                            if num:
                                m[x] = disj(x, *num)
            r = self._typed[t] = subst(t, m) if m else t
        return r

    def node(self, n):
        n.idx = len(self.nodes)
        n.term = mk("node", id(self), n.idx)
        self.nodes.append(n)
        return n

    def of(self, t):
        return self.nodes[t.a[1]]

    # -------------------------------------------------------- flattening
    def flatten(self, items, sub, guard, depth=0):
        """list of Node | (guard, text term); document order"""
        out = []
        for n in items:
            if isinstance(n, Ws):
                continue
            if isinstance(n, Txt):
                out.append((self.g(n.guard, sub), self.s(n.term, sub)))
            elif isinstance(n, El):
                tag = n.tag if isinstance(n.tag, str) else self.s(n.tag, sub)
                if isinstance(tag, T) and is_const(tag):
                    tag = cval(tag)
                g = self.g(n.guard, sub)
                if g is FALSE:
                    continue
                prev = out[-1] if out and isinstance(out[-1], Node) else None
                if prev is not None and prev.origin == "el" and prev.tag == tag and conj(prev.guard, g) is FALSE:
                    prev.variants.append((g, n, sub))
                    prev.guard = disj(prev.guard, g)
                    continue
                out.append(Node(tag, g, [(g, n, sub)], "el"))
            elif isinstance(n, UnitCall):
                cu = self.wa.units.get(n.key) or self.wa.unit(*n.key)
                g = self.g(n.guard, sub)
                if g is FALSE:
                    continue
                subj = self.s(n.subject, sub)
                m = {ELEM: subj}
                roots = [r for r in cu.roots if not isinstance(r, Ws)]
                if roots and all(isinstance(r, El) for r in roots):
                    by = {}
                    for r in roots:
                        by.setdefault(r.tag, []).append(r)
                    for tag, rs in by.items():
                        gs = [(conj(g, self.g(r.guard, m)), r, m) for r in rs]
                        gs = [x for x in gs if x[0] is not FALSE]
                        if not gs:
                            continue
                        out.append(Node(tag, disj(*[x[0] for x in gs]), gs, "unit", unit=cu, subject=subj))
                elif depth < 6:
                    for r in cu.raises:
                        if isinstance(r[0], T):
                            self.pre.add(disj(neg(g), neg(self.g(r[0], m))))
                    for x in self.flatten(roots, m, g, depth + 1):
                        if isinstance(x, Node):
                            x.guard = conj(g, x.guard)
                            out.append(x)
                        else:
                            out.append((conj(g, x[0]), x[1]))
            elif isinstance(n, Dispatch):
                g = self.g(n.guard, sub)
                if g is FALSE:
                    continue
                out.append(Node("*", g, [], "disp", subject=self.s(n.args[0], sub) if n.args else None, table=n.table))
        return out

    def g(self, guard, sub):
        return self.typed(subst(guard, sub) if sub else guard)

    def s(self, t, sub):
        return self.typed(subst(t, sub) if sub else t)

    def content(self, node):
        """[(Node | (guard, text))] of an element"""
        if node.kids_ is None:
            res = []
            if node.origin == "disp":
                res = None
            else:
                lists = []
                for g, el, sub in node.variants:
                    lists.append([x for x in self.flatten(el.children, sub, g)])
                for (g, el, sub), lst in zip(node.variants, lists):
                    for x in lst:
                        if isinstance(x, Node):
                            x.guard = conj(g, x.guard)
                            if x.guard is FALSE:
                                continue
                            prev = next((y for y in res if isinstance(y, Node) and y.origin == "el" and x.origin == "el"
                                         and y.tag == x.tag and conj(y.guard, x.guard) is FALSE), None)
                            if prev is not None and len(node.variants) > 1:
                                prev.variants += [(conj(g, a), b, c) for a, b, c in x.variants]
                                prev.guard = disj(prev.guard, x.guard)
                                continue
                            prev = next((y for y in res if isinstance(y, Node) and y.origin == x.origin != "el"
                                         and y.tag == x.tag and y.unit is x.unit and y.subject is x.subject
                                         and y.table == x.table and conj(y.guard, x.guard) is FALSE), None)
                            if prev is not None:
                                prev.variants += x.variants
                                prev.guard = disj(prev.guard, x.guard)
                                continue
                            self.node(x)
                            res.append(x)
                        else:
                            gg = conj(g, x[0])
                            if gg is not FALSE:
                                res.append((gg, x[1]))
            node.kids_ = res
        return node.kids_


class NodeInterp(Interp):
    """adds propositional reasoning to path decisions"""

    def __init__(self, prog, policy):
        super().__init__(prog, policy)
        self._dec = {}

    def decide(self, c, pc, depth=0):
        if c.op in ("nn", "truthy") and c.a[0].op == "dget" and c.a[0].a[1].op == "disptag":
            return True
        if c.op == "in" and c.a[0].op == "disptag":
            return True
        r = super().decide(c, pc, depth)
        if r is not None or depth or not pc:
            return r
        key = (c, pc)
        if key in self._dec:
            return self._dec[key]
        ats = {x for x in walk(c) if x.op in BOOL_OPS}
        rel = [p for p in pc if (p.op in ("or", "and", "not") or c.op in ("or", "and")) and any(x in ats for x in walk(p))]
        r = None
        if rel and len(rel) <= 40:
            pre = conj(*rel)
            if pre is not FALSE:
                if implies(pre, c):
                    r = True
                elif conj(pre, c) is FALSE:
                    r = False
        self._dec[key] = r
        return r


class NodePolicy(ReaderPolicy):
    def __init__(self, comp, doc, wtypes):
        super().__init__(comp.ra)
        self.comp = comp
        self.doc = doc
        self.need = []        # (writer unit, reader func, cargs, tag, loc)
        self.need_disp = []   # (writer table, reader table)
        self.ignored = []
        self.unknown = []
        self.wtypes = wtypes
        self.busy = set()
        self.single = {}      # loop -> tag of a repeated element looked up as a single one

    def ignore_handlers(self, ip, s):
        # elements the writer emits are decoded without look-up failures
        # (dispatch tables and enumerations are decided separately); a caught
        # ValueError selects between alternative codecs and is kept
        for h in s.handlers:
            names = {x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)} if h.type is not None else {"Exception"}
            if names & {"ValueError", "Exception", "BaseException", "TypeError"}:
                return False
        return True

    def attr_type_first(self, cls, name):
        return self.comp.ca.attr_type_first(cls, name)

    def attr_absent(self, cls, name):
        return self.comp.ca.attr_absent(cls, name)

    def truth(self, ip, t, st):
        if t.op == "node":
            kids = self.doc.content(self.doc.of(t))
            if kids is not None:
                return disj(*[n.guard for n in kids if isinstance(n, Node)])
        return None

    # -- navigation on the abstract document
    def alts(self, x, st, ip):
        if x.op == "phi":
            x = ip.refine(x, st)
        return x

    def child(self, ip, x, tag, st):
        x = self.alts(x, st, ip)
        if x.op == "phi":
            return phi(x.a[0], self.child(ip, x.a[1], tag, st), self.child(ip, x.a[2], tag, st))
        if x is NONE or x.op != "node":
            return NONE if x is NONE else mk("child", x, tag)
        r = NONE
        kids = self.doc.content(self.doc.of(x))
        if kids is None:
            return mk("child", x, tag)
        for n in reversed(kids):
            if isinstance(n, Node) and (n.tag == tag or tag == "*"):
                for lp in loops(n.guard) - loops(self.doc.of(x).guard):
                    self.single[lp] = n.tag       # repeated element of which one is read
                r = phi(n.guard, n.term, r)
        return r

    def children(self, ip, x, tag, st):
        x = self.alts(x, st, ip)
        if x.op == "phi" and NONE in x.a[1:]:
            x = x.a[1] if x.a[2] is NONE else x.a[2]
        if x.op != "node":
            return mk("children", x, tag)
        kids = self.doc.content(self.doc.of(x))
        if kids is None:
            return mk("children", x, tag)
        items = [(n.guard, n.term) for n in kids if isinstance(n, Node) and (n.tag == tag or tag == "*")]
        return ip.new_list(st, items)

    def xattr(self, ip, x, name, st):
        if x.op == "phi":
            return phi(x.a[0], self.xattr(ip, x.a[1], name, st), self.xattr(ip, x.a[2], name, st))
        if x is NONE:
            return NONE
        if x.op != "node":
            return mk("xattr", x, name)
        n = self.doc.of(x)
        r = NONE
        for g, el, sub in n.variants:
            v = NONE
            for ag, an, av in el.attrs:
                if an == name:
                    v = phi(self.doc.g(ag, sub), self.doc.s(av, sub), v)
            r = phi(g, v, r)
        return r

    def text(self, ip, n, st):
        r = NONE
        for g, el, sub in n.variants:
            kids = [c for c in self.doc.flatten(el.children, sub, g)]
            txt = [c for c in kids if not isinstance(c, Node)]
            if not txt:
                v = NONE
            elif any(isinstance(c, Node) for c in kids) or any(loops(c[0]) - loops(g) for c in txt):
                v = mk("mixedtext", n.term)
            else:
                v = NONE
                for tg, t in reversed(txt):
                    if v is NONE or conj(tg, neg(txt[-1][0])) is tg:
                        v = phi(tg, t, v)
                    else:
                        v = mk("mixedtext", n.term)
            r = phi(g, v, r)
        return r

    # -- hooks
    def certain_type(self, ip, t, st):
        if t.op == "call" and t.a[0] in ("enum_to_xml", "str"):
            return {"str"}
        if t.op in ("mixedtext",):
            return {"str", "None"}
        if t.op == "fstr":
            return {"str"}
        if t.op == "disptag":
            return {"str"}
        if t is not ELEM and t.op in ("attr", "elem", "item") and rooted(t) and t not in self.busy:
            self.busy.add(t)
            try:
                h = ip.hint_types(t, st)
            finally:
                self.busy.discard(t)
            if h and "any" not in h:
                return h
        if t.op == "node":
            return {"lxml.Element"}
        return super().certain_type(ip, t, st)

    def attr(self, ip, base, name, st):
        if base.op == "node" and isinstance(name, str):
            n = self.doc.of(base)
            if name == "tag":
                if n.origin == "disp":
                    return mk("disptag", base)
                return C(n.tag) if isinstance(n.tag, str) else n.tag
            if name == "text":
                return ip.refine(self.text(ip, n, st), st)
            if name == "tail":
                return NONE if n.origin != "disp" else mk("attr", base, name)
        if isinstance(name, tuple) and name[0] == "item" and base.op == "node" and is_const(name[1]):
            return ip.item(self.children(ip, base, "*", st), name[1], st)
        return super().attr(ip, base, name, st)

    def call(self, ip, f, selfterm, pos, kws, st, node):
        if f.cls is None and f.name in ("xml_to_enum", "enum_to_xml"):
            pos = [self.decode_arg(ip, p, st) for p in pos]
            if f.name == "xml_to_enum" and len(pos) >= 2 and is_const(pos[0]):
                return self.from_xml(ip, cval(pos[0]), pos[1], st)
            return mk("call", f.name, *pos, *[mk("kw", k, v) for k, v in sorted(kws.items())])
        if f.cls is not None and self.ra.reader_cls.is_sub(f.cls):
            # element arguments that merge several elements are handled one by one
            vals = list(pos)
            for i, p in enumerate(vals):
                p = ip.refine(p, st)
                vals[i] = p
                if p.op == "phi" and all(is_xml(x) or x is NONE for _, x in self.ra.xml_alternatives(p)):
                    saved_env = st
                    outs = []

                    def arm(x, alt):
                        p2 = list(pos)
                        p2[i] = alt
                        return self.value_flow(ip, f, selfterm, p2, kws, x, node)
                    fl = ip.branch(p.a[0], lambda x: arm(x, p.a[1]), lambda x: arm(x, p.a[2]), st)
                    del saved_env, outs
                    return ip.finish_call(fl, st, st.env, st.pc)
            b = self.node_arg(ip, f, pos, kws, st)
            if b is not None:
                cargs, n = b
                if n.origin in ("unit", "disp"):
                    c2 = cargs
                    u = self.ra.unit(f, c2)
                    if u.is_unit and u.uses_tag and n.origin == "unit":
                        c2 = cargs + (("@tag", C(n.tag)),)
                        u = self.ra.unit(f, c2)
                    if u.is_unit and not u.never_returns:
                        if n.origin == "unit":
                            self.need.append((n.unit, u, n.tag, f"{getattr(node, 'lineno', 0)}"))
                            st.pc = st.pc | {mk("nn", n.subject)}
                            return n.subject
                        ip.note(f"dispatched element handed to {f.name}", node)
        return None

    def value_flow(self, ip, f, selfterm, pos, kws, st, node):
        from .interp import Flow
        fl = Flow()
        try:
            v = ip.call_func(f, selfterm, pos, kws, st, node)
        except Unreachable:
            return fl
        fl.ret = (TRUE, st, v)
        return fl

    def node_arg(self, ip, f, pos, kws, st):
        params = [p for p in f.pos if p != "self"]
        vals = dict(zip(params, pos))
        for k, v in kws.items():
            if k in params:
                vals[k] = v
        xml, cargs = None, []
        for p in params:
            if p in vals:
                v = ip.refine(vals[p], st)
            elif p in f.defaults and hasattr(f.defaults[p], "value") and not isinstance(f.defaults[p].value, object.__class__):
                v = C(f.defaults[p].value) if not hasattr(f.defaults[p].value, "_fields") else None
                if v is None:
                    return None
            else:
                return None
            if v.op == "node" and xml is None:
                xml = self.doc.of(v)
                cargs.append((p, XML))
            elif is_const(v):
                cargs.append((p, v))
            else:
                return None
        return None if xml is None else (tuple(cargs), xml)

    def decode_arg(self, ip, p, st):
        return ip.refine(p, st)

    def from_xml(self, ip, ename, t, st):
        """xml_to_enum(E, text)"""
        if t.op == "phi":
            return phi(t.a[0], self.from_xml(ip, ename, t.a[1], st), self.from_xml(ip, ename, t.a[2], st))
        s = strip_str(t)
        if s.op == "call" and s.a[0] == "enum_to_xml" and len(s.a) >= 2:
            x = s.a[1]
            h = enum_types(ip.hint_types(x, st)) | enum_types(ip.certain_types(x, st))
            e = self.ra.enum_class(ename)
            if h and e in h and len(h) == 1:
                return x
            if x.op == "em" and x.a[0] is e:
                return x
            return mk("misdecoded", C(ename), x)
        return mk("call", "xml_to_enum", C(ename), t)

    def prefix(self, ip, t, p, pc):
        """t.startswith(p) for the text of a number"""
        if t.op == "phi":
            return self.prefix_phi(ip, t, p, pc)
        if is_const(t) and isinstance(cval(t), str):
            return C(cval(t).startswith(p))
        if t.op == "fstr" and t.a:
            h = t.a[0]
            if is_const(h) and isinstance(cval(h), str):
                if len(cval(h)) >= len(p):
                    return C(cval(h).startswith(p))
            elif h.op == "fmt" and isinstance(h.a[-1], str) and h.a[-1] in tuple("eEfFgGd") and p[:2] in ("0x", "0b", "0o"):
                return FALSE
            elif len(t.a) == 1:
                return self.prefix(ip, h, p, pc)
        if t.op == "call" and t.a[0] == "str" and len(t.a) == 2 and isinstance(t.a[1], T) and p[:2] in ("0x", "0b", "0o"):
            x = t.a[1]
            b = x
            while b.op == "mcall":
                b = b.a[0]
            if b.op == "call" and b.a[0] == "decimal.Decimal":
                return FALSE
            if any(mk("inst", x, mk("ext", k)) in pc for k in ("int", "float")):
                return FALSE
            h = ip.hint_types(x, EMPTY)
            if h and h <= {"int", "float", "None"}:
                return FALSE
        return mk("mcall", t, "startswith", C(p))

    def prefix_phi(self, ip, t, p, pc):
        c = t.a[0]
        return phi(c, self.prefix(ip, t.a[1], p, pc | facts_of(c)), self.prefix(ip, t.a[2], p, pc | facts_of(neg(c))))

    def mcall(self, ip, recv, name, pos, kws, st, node):
        if name == "__call__" and recv.op == "dget" and len(pos) == 1 and pos[0].op == "node":
            n = self.doc.of(pos[0])
            if n.origin == "disp":
                for tn, t in self.ra.tables.items():
                    if t is recv.a[0]:
                        self.need_disp.append((n.table, tn))
                        return n.subject
        if name == "__call__" and recv.op == "phi":
            return None
        if name == "startswith" and len(pos) == 1 and is_const(pos[0]) and isinstance(cval(pos[0]), str):
            return self.prefix(ip, recv, cval(pos[0]), st.pc)
        return super().mcall(ip, recv, name, pos, kws, st, node)


def loops(g):
    return {x for x in walk(g) if x.op == "loop"}


def enum_types(ts):
    return {x for x in (ts or ()) if isinstance(x, ClassInfo) and x.is_enum}


def strip_str(t):
    while True:
        if t.op == "fstr" and len(t.a) == 1:
            t = t.a[0]
        elif t.op == "call" and t.a[0] == "str" and len(t.a) == 2 and isinstance(t.a[1], T):
            t = t.a[1]
        elif t.op == "fmt" and len(t.a) >= 1:
            t = t.a[0]
        else:
            return t


class PairResult:
    def __init__(self, wu, ru, tag):
        self.wu = wu
        self.ru = ru
        self.tag = tag
        self.classes = {}       # class -> {attr: (verdict, detail)}
        self.problems = []
        self.need = []
        self.need_disp = []
        self.imprecise = []
        self.events = []

    @property
    def name(self):
        return f"{self.wu.name}<->{self.ru.name}<{self.tag}>"


class Composer:
    def __init__(self, wa, ra, ca):
        self.wa = wa
        self.ra = ra
        self.ca = ca
        self.results = {}

    def run_pair(self, wu, ru, tag):
        doc = Doc(self.wa)
        wcls = set(self.wa.classes_for(wu.f))
        pol = NodePolicy(self, doc, wcls)
        ip = doc.ip = NodeInterp(self.wa.prog, pol)
        ip.next_id = 300000
        if wcls:
            ip.sym_types[ELEM] = wcls
        roots = doc.flatten(wu.roots, None, TRUE)
        roots = [r for r in roots if isinstance(r, Node) and (r.tag == tag or r.tag == "*")]
        res = PairResult(wu, ru, tag)
        if len(roots) > 1:
            variants = [v for r in roots for v in r.variants]
            if all(conj(a.guard, b.guard) is FALSE for i, a in enumerate(roots) for b in roots[:i]):
                roots[0].variants = variants
                roots[0].guard = disj(*[r.guard for r in roots])
                roots = roots[:1]
        if len(roots) != 1:
            res.problems.append(("undecided", f"{len(roots)} root elements"))
            return res
        root = doc.node(roots[0])
        st = State(heap=dict(self.ra.init_heap))
        ip.sym_certain[SELF] = {self.ra.reader_cls}
        pre = set(facts_of(root.guard)) | {mk("nn", ELEM)}
        for w in wu.warns:
            doc.pre.add(neg(doc.typed(w)))
        for r in wu.raises:
            if isinstance(r[0], T) and r[0] is not TRUE:
                pre |= set(facts_of(neg(doc.typed(r[0]))))
        pre.discard(TRUE)
        st.pc = frozenset(pre)
        args = {"self": SELF}
        for k, v in ru.cargs:
            if k != "@tag":
                args[k] = root.term if v is XML else v
        try:
            val, st2, ev = ip.run(ru.f, args, st)
        except RecursionError:
            res.problems.append(("undecided", "recursion"))
            return res
        res.events = ev
        res.imprecise = ip.imprecise
        res.need = pol.need
        res.need_disp = pol.need_disp
        res.single = pol.single
        res.value = val
        res.heap = st2.heap
        res.pre = list(pre)
        res.ip = ip
        res.st = st2
        res.doc = doc
        return res

    # ------------------------------------------------------------ judging
    def concrete(self, k):
        """classes an instance of k can have: the ones the writer can serialise, else all"""
        memo = self.__dict__.setdefault("_conc", {})
        if k not in memo:
            names = self.__dict__.get("_names")
            if names is None:
                names = self._names = set()
                for tn in self.wa.tables:
                    names |= {x for x in self.wa.table_entries(tn) if isinstance(x, str)}
            allc = k.all_subclasses()
            allc = [k] + [c for c in allc if c is not k]
            sub = [c for c in allc if c.name in names]
            memo[k] = sub or allc
        return memo[k]

    def build(self, seeds):
        work = list(seeds)
        while work:
            k = work.pop()
            if k in self.results:
                continue
            r = self.results[k] = self.run_pair(*k)
            self.judge(r)
            for wu, ru, tag, _loc in r.need:
                work.append((wu, ru, tag))
        return self.results

    def constant_of(self, cls, target):
        """value an attribute of the element always has"""
        if target.op != "attr":
            return None
        if target.a[0] is not ELEM:
            cls = None
        if cls is None:
            return None
        k = (cls, target.a[1])
        memo = self.__dict__.setdefault("_const", {})
        if k not in memo:
            c = self.ca.get(cls)
            v = c.entries.get(target.a[1])
            vals = set()
            if v is not None:
                for g, leaf in ctor_leaves(v):
                    if leaf.op in ("c", "em"):
                        vals.add(leaf)
                    elif leaf.op == "sym":
                        # the argument itself: constant when every accepted value is
                        ok = [t for t in const_values(g, leaf, c)]
                        vals |= set(ok) if ok else {leaf}
                    else:
                        vals.add(leaf)
            memo[k] = next(iter(vals)) if len(vals) == 1 and next(iter(vals)).op in ("c", "em") else None
        return memo[k]

    def judge(self, r):
        if r.problems:
            return
        if r.value is None:
            r.problems.append(("rejects", "the reader raises on every document the writer emits"))
            return
        for g, leaf in leaves(r.value):
            if Judge(self, r, None).unsat(g):
                continue
            if leaf is NONE:
                r.problems.append(("nothing", "reader returns nothing" + cond_text(g)))
                continue
            if leaf.op == "mcall" or leaf.op not in ("obj",):
                r.problems.append(("undecided", f"result {show(leaf)[:80]}"))
                continue
            o = r.heap[leaf]
            if o.kind != "inst" or o.cls is None:
                r.problems.append(("undecided", f"result {show(leaf)[:80]}"))
                continue
            d = r.classes.setdefault(o.cls, {})
            want = self.wa.classes_for(r.wu.f)
            if want and not any(o.cls.is_sub(w) or w.is_sub(o.cls) for w in want):
                # an annotation alone decides nothing: what the writer does with the object does
                r.problems.append(("class" if self.wa.asserts_class(r.wu.f) else "undecided", f"reader builds {o.cls.name}, writer takes {sorted(w.name for w in want)}"))
                if not self.wa.asserts_class(r.wu.f):
                    continue
            for a, v in o.entries.items():
                if not isinstance(a, str) or a == "parent":
                    continue
                d[a] = Judge(self, r, o.cls).attribute(a, v, g)


def const_values(g, leaf, c):
    """constants the argument can have given the constructor accepted it"""
    cand = set()
    for rg, *_ in c.raises:
        for x in walk(rg):
            if x.op == "eq" and leaf in x.a:
                o = x.a[0] if x.a[1] is leaf else x.a[1]
                if o.op in ("c", "em"):
                    cand.add(o)
    if not cand:
        return []
    q = conj(g, *[neg(mk("eq", *sorted((leaf, x)))) for x in cand], *[neg(rg) for rg, *_ in c.raises if leaf in set(walk(rg))])
    q2 = conj(g, *[neg(mk("eq", leaf, x)) for x in cand], *[neg(rg) for rg, *_ in c.raises if leaf in set(walk(rg))])
    return sorted(cand) if q is FALSE or q2 is FALSE else []


def cond_text(g):
    return "" if g is TRUE else " when " + show(g)[:200]


def leaves(v, g=TRUE):
    if v.op == "phi":
        yield from leaves(v.a[1], conj(g, v.a[0]))
        yield from leaves(v.a[2], conj(g, neg(v.a[0])))
    else:
        yield g, v


NUM = {"int", "float", "bool"}


class Found(list):
    """differences; one whose guard was too large to decide is set aside"""

    def __init__(self, judge):
        super().__init__()
        self.judge = judge

    def append(self, x):
        if self.judge.fuzzy:
            self.judge.fuzzy = False
            self.judge.und.append("guard too large: " + show(x[-1])[:80])
        else:
            super().append(x)


class Judge:
    fuzzy = False
    """decides whether the value read back equals the value written"""

    def __init__(self, comp, r, cls):
        self.comp = comp
        self.r = r
        self.cls = cls
        self.ip = r.ip
        self.notes = []

    def hints(self, t):
        return self.ip.hint_types(t, self.r.st) or set()

    def unsat(self, *cs):
        """no object satisfies the conditions (writer accepted it without a
        diagnostic, types as declared)"""
        q = conj(*cs)
        if q is FALSE:
            return True
        q = self.r.doc.typed(q)
        if q is FALSE:
            return True
        if q is TRUE:
            return False
        tops = top_attrs(q)
        pre = list(self.r.pre) + [p for p in self.r.doc.pre if p is not TRUE]
        rel = [p for p in pre if not top_attrs(p) or top_attrs(p) & tops or any(x.op == "isempty" for x in walk(p))]
        r = conj(q, *rel, *self.closure(q, rel))
        if r is FALSE:
            return True
        if len({x for x in walk(r) if is_cond(x) and x.op not in ("and", "or", "not")}) > MAX_ATOMS:
            self.fuzzy = True
        return False

    def closure(self, q, rel):
        """facts from declared types: the value is absent or an instance of one of its types"""
        subj = {}
        out = []
        for t in (q, *rel):
            for x in walk(t):
                if x.op == "truthy" and x.a[0].op == "call" and x.a[0].a[0] == "str" and len(x.a[0].a) == 2:
                    # the text of a number is not empty
                    y = x.a[0].a[1]
                    out.append(disj(x, neg(disj(*[mk("inst", y, mk("ext", k)) for k in ("int", "float")]))))
                if x.op == "inst" and rooted(x.a[0]):
                    subj.setdefault(x.a[0], set()).add(x.a[1])
        for x in subj:
            h = self.ip.hint_types(x, EMPTY)
            if not h or "any" in h:
                continue
            alts = []
            for k in h:
                if k == "None":
                    alts.append(neg(mk("nn", x)))
                elif isinstance(k, ClassInfo):
                    for c in self.comp.concrete(k):
                        alts.append(mk("inst", x, mk("cls", c)))
                else:
                    tt = mk("ext", k[0] if isinstance(k, tuple) else k)
                    alts.append(mk("inst", x, tt))
            if x.op == "elem":
                lp = mk("loop", x.a[0])
                out.append(disj(neg(lp), *alts))
            elif "None" not in h and x.op == "attr" and x.a[0] is not ELEM:
                out.append(disj(*alts))
            else:
                out.append(disj(neg(mk("nn", x)), *alts))
        return out

    def attribute(self, a, v, g=TRUE):
        self.lost, self.bad, self.und = Found(self), Found(self), []
        target = attr(ELEM, a)
        self.same(v, target, g)
        if self.bad:
            return ("mismatch", self.bad)
        if self.lost:
            return ("lost", self.lost)
        if self.und:
            return ("undecided", self.und)
        return ("ok", [])

    def is_format(self, t):
        """number format hints describe the text, not the value"""
        h = {x for x in self.hints(t) if x != "None"}
        return bool(h) and all(isinstance(x, ClassInfo) and x.name == "ValueFormat" for x in h)

    def empty_ok(self, g, target):
        """under g the written value carries no information"""
        if self.unsat(g, mk("nn", target)):
            return True
        h = {x for x in self.hints(target) if x != "None"}
        if h & NUM or any(isinstance(x, ClassInfo) and x.is_enum for x in h) or "any" in h:
            if not (h & {"str", "list"}):
                return False
        if self.unsat(g, mk("truthy", target)):
            return True
        return h == {"list"} or all(isinstance(x, tuple) and x[0] == "list" for x in h) and bool(h) \
            if self.unsat(g, mk("loop", target)) else False

    def carried(self, g, target):
        """the value is written as XML attribute of the element of another value, absent under g"""
        host = []
        for n in self.r.doc.nodes[1:]:
            for vg, el, sub in n.variants:
                for ag, an, av in el.attrs:
                    if any(x is target for x in walk(av)):
                        host.append(vg)
        return bool(host) and self.unsat(g, disj(*host))

    def same(self, v, target, g):
        if g is FALSE:
            return
        self.fuzzy = False
        if target.op == "attr" and self.is_format(target):
            return
        v = lift(v)
        if v is target:
            return
        if v.op == "phi":
            self.same(v.a[1], target, conj(g, v.a[0]))
            self.same(v.a[2], target, conj(g, neg(v.a[0])))
            return
        if decodes_nothing(v):
            if self.unsat(g):
                return
            if v.a[0] != "str" and self.unsat(g, mk("truthy", target)):
                return      # an empty text where a number is expected carries no number
            self.bad.append((g, v, target))
            return
        if v is NONE or v.op == "absent":
            if not self.empty_ok(g, target) and not self.carried(g, target):
                self.lost.append((g, target))
            return
        h = {x for x in self.hints(target) if x != "None"}
        if is_cond(v) and v.op != "c":
            if v is mk("truthy", target):
                return
            if v.op in ("truthy",) and v.a[0] is target:
                return
            # equal to truthy(target) on this path?
            tr = mk("truthy", target)
            if self.unsat(g, v, neg(tr)) and self.unsat(g, tr, neg(v)):
                return
            if h <= {"bool"} and all(related_paths(x, target) or x.op in ("nn", "exc", "loop")
                                     for x in walk(v) if is_cond(x) and x.op not in ("and", "or", "not")):
                self.bad.append((g, v, target))
                return
            self.diff(v, target, g)
            return
        if v.op == "c" or v.op == "em":
            if implies(g, mk("eq", target, v)):
                return
            if v.op == "c" and v.a[0] == "bool":
                if h <= {"bool"} or "bool" in h:
                    if self.unsat(g, mk("truthy", target) if not cval(v) else neg(mk("truthy", target))):
                        return
            k = self.comp.constant_of(self.cls, target)
            if k is v:
                return
            if self.carried(g, target):
                return
            if self.unsat(g, mk("nn", target)):
                self.und.append(f"default {show(v)} read for an absent value")
                return
            if v.op == "c" and cval(v) == "" and self.unsat(g, mk("truthy", target)):
                return
            self.lost.append((g, target))
            return
        if v.op == "obj":
            o = self.r.heap.get(v)
            if o is None:
                self.und.append(show(v)[:60])
                return
            if o.kind in ("list", "set", "tuplelist"):
                self.same_list(o, target, g)
                return
            if o.kind == "inst" and o.cls is not None:
                if "parent" in o.entries:
                    pass
                names = [k for k in o.entries if isinstance(k, str) and k != "parent"]
                for k in names:
                    ts = self.comp.ca.attr_type(o.cls, k) or ()
                    if any(isinstance(x, ClassInfo) and x.name == "ValueFormat" for x in ts):
                        continue
                    self.same(o.entries[k], attr(target, k), conj(g, mk("nn", target)))
                return
            self.und.append(f"{o.kind}")
            return
        if v.op == "tup":
            for i, x in enumerate(v.a):
                self.same(x, mk("item", target, C(i)), g)
            return
        if v.op == "attr" and v.a[0].op == "obj":
            self.und.append(show(v)[:80])
            return
        # numeric codec
        k = const_number(v)
        if k is not None:
            if k != "raises" and not nonfinite(k, g, target) and not self.unsat(g):
                self.lost.append((g, target))
            return
        base = numeric_source(v)
        while base is not None and numeric_source(base) is not None:
            base = numeric_source(base)
        if base is not None:
            srcs = value_paths(base)
            if not srcs:
                self.und.append(show(v)[:80])
                return
            root = target
            while root.op == "attr" and root.a[1] in WRAP:
                root = root.a[0]
            if all(wraps(x, root) for x in srcs):
                self.number(v, target, g)
                return
            self.diff(v, target, g)
            return
        s = strip_str(v)
        if s is target:
            if v is not s and self.prints_none(target, g):
                self.bad.append((conj(g, neg(mk("nn", target))), v, target))
                return
            if "str" in h and any(x.op == "exc" for x in walk(g)):
                return
            if h and not (h & {"str", "any"}) and not any(isinstance(x, ClassInfo) for x in h):
                self.bad.append((g, v, target))
            return
        if v.op in ("mixedtext", "popped", "loopvar", "mcall", "snap", "item") or any(
                x.op in ("mixedtext", "popped", "loopvar", "childdyn") for x in walk(v)):
            self.und.append(show(v)[:100])
            return
        if v.op == "elem" and target.op == "elem" and v.a[0] is target.a[0]:
            return
        self.diff(v, target, g)

    def prints_none(self, x, g):
        """under g an absent value is turned into the text "None\""""
        return "None" in self.hints(x) and not self.unsat(g, neg(mk("nn", x)))

    def texts(self, t, g):
        """the alternatives of a text term: (guard, number, class)"""
        for lg, leaf in leaves(t, g):
            if lg is FALSE or self.unsat(lg):
                continue
            ns = {x for x in value_paths(leaf)}
            ns = {x for x in ns if not any(x is not y and any(z is x for z in walk(y)) for y in ns)}
            if len(ns) != 1:
                yield lg, None, textcodec.classify(leaf, NONE, lg, ()) if is_const(leaf) else None
                continue
            x = next(iter(ns))
            yield lg, x, textcodec.classify(leaf, x, lg, self.hints(x))

    def excluded(self, g):
        """the exception conditions in g contradict what the conversions do"""
        for y in {x for x in walk(g) if x.op == "exc" and len(x.a) == 2}:
            calls = self.ip.exc_try.get(y.a[0])
            if not calls:
                continue
            if implies(g, y):
                if all(out in ("same", "approx-int", "approx", "const") for c in calls for out in self.outcomes(c, g)):
                    return True
            elif implies(g, neg(y)):
                for c in calls:
                    outs = list(self.outcomes(c, g))
                    if outs and all(o == "raises" for o in outs):
                        return True
        return False

    def outcomes(self, c, g):
        d, t = decoder(c)
        if d is None:
            yield None
            return
        for lg, x, cls in self.texts(lift(t), g):
            yield textcodec.decode(d, cls)

    def number(self, v, target, g):
        """v decodes the text written for target"""
        chain = []
        t = v
        while True:
            d, u = decoder(t)
            if d is None:
                break
            chain.append(d)
            t = u
        if not chain or self.excluded(g):
            return
        chain.reverse()
        caught = any(x.op == "exc" for x in walk(g))
        for lg, x, cls in self.texts(t, g):
            if self.excluded(lg):
                continue
            ty = textcodec.number_types(x, lg, self.hints(x)) if x is not None else set()
            out = textcodec.decode(chain[0], cls)
            if x is not None and x is not t and self.prints_none(x, lg):
                self.bad.append((conj(lg, neg(mk("nn", x))), v, target))
            elif out is None:
                self.und.append("text form " + show(t)[:100])
            elif out in ("same-or-raises", "same", "const"):
                if "int" in [d[0] for d in chain[1:]] and "float" in ty and not textcodec.integral(x, lg):
                    self.bad.append((lg, v, target))
            elif out == "raises-mostly":
                if not caught:
                    self.bad.append((lg, v, target))
            elif out == "approx-int" and "float" in ty and "int" not in ty:
                pass
            else:
                self.bad.append((lg, v, target))

    def diff(self, v, target, g):
        ps = value_paths(v)
        if not ps or any(x.op in ("mixedtext", "obj", "dget") for x in walk(v)):
            self.und.append(show(v)[:100])
            return
        self.bad.append((g, v, target))

    def same_list(self, o, target, g):
        if o.base is not None:
            self.und.append("list with unknown base " + show(o.base)[:80])
            return
        if not o.items:
            if self.unsat(g, mk("truthy", target)) or self.empty_ok(g, target):
                return
            self.lost.append((g, target))
            return
        el = mk("elem", target)
        lp = mk("loop", target)
        if lp in self.r.single:
            self.bad.append((g, C(f"only one <{self.r.single[lp]}> is read"), target))
            return
        cover = FALSE
        for ig, v in o.items:
            x = conj(g, ig)
            if x is FALSE:
                continue
            if not any(y is lp for y in walk(ig)):
                # single value stored as list or vice versa
                if any(y is target or (y.op == "item" and y.a[0] is target) for y in walk(v)):
                    cover = disj(cover, ig)
                    if any(y.op == "item" and y.a[0] is target for y in walk(v)) and not self.single(x, target, o):
                        self.lost.append((conj(x, lp), target))
                    continue
                vp = value_paths(v)
                if vp and not any(related_paths(p, target) for p in vp):
                    self.bad.append((x, v, target))
                else:
                    self.und.append("item outside loop: " + show(v)[:80])
                continue
            cover = disj(cover, ig)
            if v is el:
                continue
            self.same_item(v, el, x)
        miss = conj(g, lp, neg(cover))
        for x in walk(miss):
            if x.op == "truthy" and x.a[0].op == "item" and x.a[0].a[0] is target and self.unsat(miss, x):
                return      # only an empty text is left out
        if not self.und and not self.unsat(miss):
            self.lost.append((miss, target))

    def single(self, g, target, o):
        """the items of the target are taken one by one: under g it has no more of them"""
        k = C(len({y for _, v in o.items for y in walk(v) if y.op == "item" and y.a[0] is target}))
        n = mk("call", "len", target)
        facts = [x for t in (g, *self.r.pre, *self.r.doc.pre) for x in walk(t)]
        if any(x.op == "eq" and set(x.a) == {n, k} and self.unsat(g, neg(x)) for x in facts):
            return True
        if any(x is n and y.op != "eq" for y in facts for x in y.a if isinstance(x, T)):
            self.und.append(f"condition on the length of {show(target)}")
            return True
        return False

    def same_item(self, v, el, g):
        self.same(v, el, g)


def top_attrs(t):
    return {x.a[1] for x in walk(t) if x.op == "attr" and x.a[0] is ELEM}


def related_paths(p, target):
    return any(q is target for q in walk(p))


WRAP = {"_value", "value", "value_format", "_value_format", "format"}


def wraps(t, target):
    """t denotes the number carried by target: target itself or what it wraps"""
    while t is not target and t.op == "attr" and t.a[1] in WRAP:
        t = t.a[0]
    return t is target


def const_number(v):
    """the number a decoder makes of a fixed text"""
    b = numeric_source(v)
    if b is None:
        return None
    if is_const(b) and isinstance(cval(b), str):
        x = cval(b)
    else:
        x = const_number(b)
    if x is None or x == "raises":
        return x
    try:
        return {"int": int, "float": float, "decimal.Decimal": float}[v.a[0]](x)
    except (ValueError, OverflowError):
        return "raises"


def nonfinite(k, g, target):
    """the guard says that the target is the infinity / not-a-number k"""
    inf = float("inf")
    for x in walk(g):
        if x.op == "call" and len(x.a) == 2 and isinstance(x.a[1], T) and wraps(x.a[1], target):
            y = x.a[1]
            if x.a[0] == "math.isnan" and k != k and implies(g, mk("truthy", x)):
                return True
            if x.a[0] == "math.isinf" and k in (inf, -inf) and implies(g, mk("truthy", x)):
                negative = [z for z in walk(g) if z.op in ("lt", "le") and z.a[0] is y and is_number(z.a[1])]
                positive = [z for z in walk(g) if z.op in ("lt", "le") and z.a[1] is y and is_number(z.a[0])]
                if k < 0 and (any(implies(g, z) for z in negative) or any(implies(g, neg(z)) for z in positive)):
                    return True
                if k > 0 and (any(implies(g, neg(z)) for z in negative) or any(implies(g, z) for z in positive)):
                    return True
        if x.op == "eq" and implies(g, x):
            for a, b in (x.a, x.a[::-1]):
                if isinstance(a, T) and isinstance(b, T) and wraps(a, target):
                    c = infinity(b)
                    if c is not None and c == k:
                        return True
    return False


def is_number(t):
    return is_const(t) and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool)


def infinity(t):
    if is_number(t):
        return cval(t)
    if t.op == "ext" and t.a[0] == "math.inf" or t.op == "attr" and t.a[1] == "inf":
        return float("inf")
    if t.op == "un" and t.a[0] == "USub":
        c = infinity(t.a[1])
        return None if c is None else -c
    if t.op == "call" and t.a[0] == "float" and len(t.a) == 2 and is_const(t.a[1]):
        try:
            return float(cval(t.a[1]))
        except (ValueError, TypeError):
            return None
    return None


def decodes_nothing(v):
    return v.op == "call" and any(x is NONE for x in v.a[1:])


def lift(v):
    """case distinctions inside a conversion become case distinctions on its result"""
    if v.op in ("call", "fstr", "fmt", "misdecoded"):
        args = [lift(x) if isinstance(x, T) else x for x in v.a]
        for i, x in enumerate(args):
            if isinstance(x, T) and x.op == "phi":
                a, b = list(args), list(args)
                a[i], b[i] = x.a[1], x.a[2]
                return phi(x.a[0], lift(mk(v.op, *a)), lift(mk(v.op, *b)))
        return mk(v.op, *args)
    return v


def decoder(v):
    """((function, base), text) of a conversion from text to number"""
    if v.op == "call" and v.a[0] in ("int", "float", "decimal.Decimal") and len(v.a) >= 2 and isinstance(v.a[1], T):
        base = None
        for x in v.a[2:]:
            y = x.a[1] if x.op == "kw" else x
            if not is_const(y):
                return None, None
            base = cval(y)
        return (v.a[0], base), v.a[1]
    return None, None


def numeric_source(v):
    """text decoded by int()/float()/Decimal() in v"""
    if v.op == "call" and v.a[0] in ("int", "float", "decimal.Decimal") and len(v.a) >= 2 and isinstance(v.a[1], T):
        return v.a[1]
    return None


def value_paths(v):
    """attribute paths of elem that contribute to the value"""
    res = set()
    for x in data_walk(v):
        b = x
        while b.op in ("attr", "elem", "item"):
            b = b.a[0]
        if b is ELEM and x is not ELEM:
            res.add(x)
    return {x for x in res if not any(y is not x and y.op in ("attr", "elem", "item") and y.a[0] is x for y in res)}
