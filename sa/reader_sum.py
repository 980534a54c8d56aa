"""
Reader summaries: for every reader method that turns one XML element into a
model object, the object it builds with the XML path each attribute value is
taken from, the children it consumes and the children it reports.
"""
import ast
from .terms import (T, mk, C, NONE, TRUE, FALSE, is_const, cval, sym, attr, conj, disj, neg, phi, walk, show, data_walk,
                    facts_of)
from .program import ClassInfo, AnalysisBroken
from .interp import Interp, Policy, State, HObj, Ev, IfEv, LoopEv, flat_events

SELF = sym("self")
XML = sym("xml")
ELEMENT = "lxml.etree.Element"


def child(x, tag):
    return mk("child", x, tag)


def children(x, tag):
    return mk("children", x, tag)


def is_xml(t):
    """term denotes an XML element"""
    if t is XML or t.op == "node":
        return True
    if t.op == "child":
        return True
    if t.op == "elem" and t.a[0].op == "children":
        return True
    return False


def strip_path(p):
    segs = [s for s in p.split("/") if s not in (".", "")]
    return segs


def optional(t):
    """the value can be None because content is absent from the document"""
    if t.op == "phi":
        return any(x is NONE or optional(x) for x in t.a[1:])
    return t is NONE or t.op in ("child", "runit", "rdisp", "xattr") or t.op == "attr" and t.a[1] in ("text", "tail") and is_xml(t.a[0])


class ReaderPolicy(Policy):
    may_be_none = staticmethod(optional)
    indexable = staticmethod(lambda t: is_xml(t) or t.op == "children")

    def __init__(self, ra):
        self.ra = ra
        self.root_func = None
        self.tag = None

    # -- navigation
    def child(self, ip, x, tag, st):
        return child(x, tag)

    def children(self, ip, x, tag, st):
        return children(x, tag)

    def xattr(self, ip, x, name, st):
        return mk("xattr", x, name)

    # -- types
    def certain_type(self, ip, t, st):
        if t.op == "attr" and is_xml(t.a[0]):
            if t.a[1] in ("text", "tail"):
                return {"str", "None"}
            if t.a[1] == "tag":
                return {"str"}
        if t.op == "xattr":
            return {"str", "None"}
        if t.op == "runit":
            return set(self.ra.result_classes(t.a[0], t.a[1])) or None
        if t.op == "call" and t.a[0] == "xml_to_enum" and len(t.a) > 1 and is_const(t.a[1]):
            e = self.ra.enum_class(cval(t.a[1]))
            if e is not None:
                return {e}
        if t.op in ("child",):
            return {"xml", "None"} if False else None
        return None

    def attr(self, ip, base, name, st):
        if is_xml(base) and name == "tag":
            if base.op == "child" and base.a[1] != "*":
                return C(base.a[1])
            if base.op == "elem" and base.a[0].a[1] != "*":
                return C(base.a[0].a[1])
            if base is XML and self.tag is not None:
                return C(self.tag)
        if isinstance(name, tuple) and base.op == "attr" and base.a[1] == "attrib" and is_xml(base.a[0]) \
                and is_const(name[1]):
            xa = self.xattr(ip, base.a[0], cval(name[1]), st)
            if name[0] == "in":
                return ip.make_nn(xa, st)
            have = ip.make_nn(xa, st)
            if ip.decide(have, st.pc) is not True:
                ip.emit("attrmiss", base.a[0], cval(name[1]), st=st)
                st.pc = st.pc | facts_of(have)
            return ip.refine(xa, st)
        if isinstance(name, tuple) and name[0] == "in" and base.op == "dictview" and False:
            return None
        return None

    # -- calls
    def call(self, ip, f, selfterm, pos, kws, st, node):
        if f.cls is None and f.name in ("xml_to_enum", "enum_to_xml"):
            pos = [ip.refine(p, st) for p in pos]
            return mk("call", f.name, *pos, *[mk("kw", k, v) for k, v in sorted(kws.items())])
        if f.cls is not None and self.ra.reader_cls.is_sub(f.cls):
            ph = [i for i, p in enumerate(pos) if p.op == "phi"]
            if len(ph) == 1 and self.ra.xml_param(f) is not None:
                alts = [(g, x) for g, x in self.ra.xml_alternatives(ip.refine(pos[ph[0]], st)) if x is not NONE]
                if len(alts) > 1 and all(is_xml(x) for _, x in alts):
                    out = NONE
                    for g, x in reversed(alts):
                        p2 = list(pos)
                        p2[ph[0]] = x
                        s2 = st.copy(g.a if False else frozenset())
                        saved = ip.events
                        ip.events = ev = []
                        r = ip.call_func(f, selfterm, p2, kws, s2, node)
                        ip.events = saved
                        if ev:
                            ip.events.append(IfEv(g, ev, []))
                        out = phi(g, r, out) if out is not NONE else r
                    return out
            b = self.ra.boundary(ip, f, pos, kws, st)
            if b is not None:
                cargs, xml = b
                ip.need(xml, f.name + "()", st, node)
                u = self.ra.unit(f, cargs)
                if u.is_unit and u.uses_tag:
                    tg = self.attr(ip, xml, "tag", st)
                    if tg is None:
                        for fact in st.pc:
                            if fact.op == "eq" and fact.a[0] is attr(xml, "tag") and is_const(fact.a[1]):
                                tg = fact.a[1]
                    if tg is not None:
                        cargs = cargs + (("@tag", tg),)
                        u = self.ra.unit(f, cargs)
                if u.is_unit:
                    ip.emit("runit", (f, cargs), xml, node=node, st=st)
                    if u.never_returns:
                        from .interp import Unreachable
                        raise Unreachable()
                    if u.none_cond is FALSE:
                        st.pc = st.pc | {mk("nn", mk("runit", f, cargs, xml))}
                    return mk("runit", f, cargs, xml)
        return None

    def new(self, ip, cls, pos, kws, st, node):
        if cls is self.ra.map_cls:
            x = pos[0] if pos else next(iter(kws.values()), None)
            if x is not None:
                ip.emit("cmap", x, node=node, st=st)
                return mk("cmap", x)
        return None

    def mcall(self, ip, recv, name, pos, kws, st, node):
        if recv.op == "cmap":
            x = recv.a[0]
            if name == "get" and pos:
                tag = ip.refine(pos[0], st)
                if is_const(tag):
                    ip.emit("consume", x, cval(tag), "get", node=node, st=st)
                    return self.child(ip, x, cval(tag), st)
                if tag.op == "phi":
                    def split(t):
                        if t.op == "phi":
                            a, ea = split(t.a[1])
                            b, eb = split(t.a[2])
                            return phi(t.a[0], a, b), [IfEv(t.a[0], ea, eb)]
                        if is_const(t):
                            return self.child(ip, x, cval(t), st), [Ev("consume", (x, cval(t), "get"), getattr(node, "lineno", 0),
                                                          ip.frames[-1][0], st.pc)]
                        ip.note("child lookup with computed tag", node)
                        return mk("childdyn", x, t), []
                    r, evs = split(tag)
                    ip.events.extend(evs)
                    return r
                ip.note("child lookup with computed tag", node)
                ip.emit("consume", x, None, "get", node=node, st=st)
                return mk("childdyn", x, tag)
            if name == "skip" and pos:
                tag = ip.refine(pos[0], st)
                ip.emit("consume", x, cval(tag) if is_const(tag) else None, "skip", node=node, st=st)
                return NONE
            if name in ("values", "items"):
                ip.emit("cmapvalues", x, node=node, st=st)
                return mk("cmapvals", x)
        if is_xml(recv):
            if name in ("find", "findall", "iterfind", "findtext") and pos:
                p = ip.refine(pos[0], st)
                if is_const(p) and isinstance(cval(p), str):
                    segs = strip_path(cval(p))
                    cur = recv
                    for s in segs[:-1]:
                        ip.emit("consume", cur, s, "find", node=node, st=st)
                        cur = self.child(ip, cur, s, st)
                    last = segs[-1] if segs else "*"
                    if name in ("find", "findtext"):
                        ip.emit("consume", cur, last, "find", node=node, st=st)
                        r = self.child(ip, cur, last, st)
                        return ip.getattr(r, "text", st, node) if name == "findtext" else r
                    ip.emit("consume", cur, last, "all", node=node, st=st)
                    return self.children(ip, cur, last, st)
                ip.note("child lookup with computed path", node)
                return None
            if name in ("iterchildren", "getchildren") and not pos:
                ip.emit("consume", recv, "*", "all", node=node, st=st)
                return self.children(ip, recv, "*", st)
            if name == "get" and pos:
                return self.xattr_get(ip, recv, pos, kws, st)
        if recv.op == "attr" and recv.a[1] == "attrib" and is_xml(recv.a[0]):
            if name == "get" and pos:
                return self.xattr_get(ip, recv.a[0], pos, kws, st)
            if name in ("items", "keys"):
                ip.emit("allattrs", recv.a[0], node=node, st=st)
        if name == "__call__" and recv.op == "dget":
            for tn, t in self.ra.tables.items():
                if t is recv.a[0]:
                    if len(pos) == 1 and is_xml(pos[0]):
                        ip.uses_checked += 1
                        have = ip.make_nn(recv, st)
                        if recv.a[2] is NONE and ip.decide(have, st.pc) is not True:
                            ip.emit("needs", recv, "call", neg(have), node=node, st=st)
                        ip.emit("rdispatch", tn, recv.a[1], pos[0], node=node, st=st)
                        return mk("rdisp", tn, pos[0])
        if name == "__call__" and recv.op == "mcall" and recv.a[1] in ("get", "__getitem__"):
            return None
        return None

    def xattr_get(self, ip, x, pos, kws, st):
        k = ip.refine(pos[0], st)
        if is_const(k):
            d = pos[1] if len(pos) > 1 else kws.get("default", NONE)
            xa = self.xattr(ip, x, cval(k), st)
            if d is NONE:
                return xa
            return phi(ip.make_nn(xa, st), xa, d)
        return None


class ReaderAnalysis:
    def __init__(self, prog):
        self.prog = prog
        self.mod = prog.module("autosar.xml.reader")
        self.reader_cls = prog.cls("Reader", "autosar.xml.reader")
        self.arobject = prog.cls("ARObject", "autosar.xml.base")
        self.enum_mod = prog.module("autosar.xml.enumeration")
        self.map_cls = self._find_map_cls()
        self.units = {}
        self.active = set()
        self._init_state()

    def _find_map_cls(self):
        for c in self.prog.classes:
            if c.module is self.mod and {"get", "skip", "values"} <= set(c.methods):
                return c
        raise AnalysisBroken("child element map class not found in reader module")

    def enum_class(self, name):
        for c in self.prog.classes:
            if c.name == name and c.is_enum and c.module is self.enum_mod:
                return c
        return None

    def _init_state(self):
        ip = Interp(self.prog, Policy())
        st = State()
        st.heap[SELF] = HObj("inst", self.reader_cls, SELF)
        ip.sym_certain[SELF] = {self.reader_cls}
        init = self.reader_cls.lookup("__init__")
        if init is None:
            raise AnalysisBroken("Reader.__init__ not found")
        ip.run(init, {"self": SELF, **{p: sym(p) for p in init.pos[1:]}}, st)
        self.tables = {}
        obj = st.heap[SELF]
        e = {}
        for f, v in obj.entries.items():
            if v.op == "obj" and st.heap[v].kind == "dict":
                self.tables[f] = v
                e[f] = v
        self.init_entries = dict(obj.entries)
        st.heap[SELF] = HObj("inst", obj.cls, obj.base, (), e, obj.meta)
        self.init_heap = dict(st.heap)
        if not self.tables:
            raise AnalysisBroken("no dispatch tables found in Reader")

    def table_entries(self, name):
        o = self.init_heap[self.tables[name]]
        return {cval(k): v for k, v in o.entries.items() if is_const(k)}

    def xml_param(self, f):
        ps = [p for p in f.pos if p != "self"]
        for p in ps:
            an = f.annotation(p)
            if an is not None and ast.unparse(an).split(".")[-1] in ("Element", "_Element", "ElementBase"):
                return p
        if len(ps) == 1 and f.name.startswith("_read"):
            an = f.annotation(ps[0])
            if an is None:
                return ps[0]
        return None

    def boundary(self, ip, f, pos, kws, st):
        """(const args, xml term) when the call passes one XML element and constants only"""
        params = [p for p in f.pos if p != "self"]
        vals = dict(zip(params, pos))
        for k, v in kws.items():
            if k in params:
                vals[k] = v
        xml = None
        cargs = []
        for p in params:
            if p in vals:
                v = ip.refine(vals[p], st)
            elif p in f.defaults and isinstance(f.defaults[p], ast.Constant):
                v = C(f.defaults[p].value)
            else:
                return None
            if is_xml(v) and xml is None:
                xml = v
                cargs.append((p, XML))
            elif is_const(v):
                cargs.append((p, v))
            else:
                return None
        if xml is None:
            return None
        return tuple(cargs), xml

    @staticmethod
    def xml_alternatives(v):
        """(guard, element) for a merged element reference"""
        if v.op == "phi":
            out = []
            for c, x in ((v.a[0], v.a[1]), (neg(v.a[0]), v.a[2])):
                out += [(conj(c, g), y) for g, y in ReaderAnalysis.xml_alternatives(x)]
            return out
        return [(TRUE, v)]

    def unit(self, f, cargs=None):
        if cargs is None:
            xp = self.xml_param(f)
            cargs = []
            for p in f.pos:
                if p == "self":
                    continue
                if p == xp:
                    cargs.append((p, XML))
                elif p in f.defaults and isinstance(f.defaults[p], ast.Constant):
                    cargs.append((p, C(f.defaults[p].value)))
                else:
                    cargs.append((p, sym(p)))
            cargs = tuple(cargs)
        key = (f, cargs)
        u = self.units.get(key)
        if u is None:
            u = RUnit(self, f, cargs)
            self.units[key] = u
            u.analyse()
        return u

    def result_classes(self, f, cargs):
        u = self.units.get((f, cargs))
        if u is None:
            return set()
        return u.classes

    def analyse_all(self):
        for tn in self.tables:
            for tag, v in self.table_entries(tn).items():
                if v.op == "bound":
                    self.unit(v.a[1])
        for n in ("_read_package",):
            f = self.reader_cls.lookup(n)
            if f is not None:
                self.unit(f)
        return self.units


class RUnit:
    def __init__(self, ra, f, cargs):
        self.ra = ra
        self.f = f
        self.cargs = cargs
        self.key = (f, cargs)
        self.value = None
        self.heap = {}
        self.events = []
        self.imprecise = []
        self.is_unit = self._guess()
        self.never_returns = False
        self.uses_tag = False
        self.none_cond = FALSE
        self.classes = self._annotated()
        self.done = False

    def _annotated(self):
        an = self.f.node.returns
        if an is None:
            return set()
        return {x for x in self.ra.prog.ann_types(an, self.f.module) if isinstance(x, ClassInfo)
                and x.is_sub(self.ra.arobject)}

    def _guess(self):
        """while the unit is being analysed (recursion)"""
        an = self.f.node.returns
        if an is None:
            return False
        ts = self.ra.prog.ann_types(an, self.f.module) - {"None"}
        return bool(ts) and all(isinstance(x, ClassInfo) and x.is_sub(self.ra.arobject) for x in ts)

    @property
    def name(self):
        c = ",".join(f"{p}={show(v)}" for p, v in self.cargs if v is not XML)
        return f"{self.f.qual}({c})" if c else self.f.qual

    def analyse(self):
        ra = self.ra
        pol = ReaderPolicy(ra)
        ip = Interp(ra.prog, pol)
        ip.next_id = 200000
        self.ip = ip
        st = State(heap=dict(ra.init_heap))
        ip.sym_certain[SELF] = {ra.reader_cls}
        st.pc = frozenset((mk("nn", XML),))
        args = {"self": SELF, **{k: v for k, v in self.cargs if k != "@tag"}}
        pol.tag = cval(dict(self.cargs)["@tag"]) if "@tag" in dict(self.cargs) else None
        val, st2, ev = ip.run(self.f, args, st)
        self.imprecise = ip.imprecise
        self.events = ev
        self.heap = st2.heap
        self.final = st2
        self.done = True
        if val is None:
            self.never_returns = True
            return
        self.value = val
        self.classes = set()
        ok, none = True, []
        n = 0
        for g, leaf in self.leaves(val):
            if leaf.op == "obj":
                o = st2.heap.get(leaf)
                if o is not None and o.kind == "inst" and o.cls is not None and o.cls.is_sub(ra.arobject) \
                        and o.base is None:
                    self.classes.add(o.cls)
                    n += 1
                    continue
            if leaf.op == "runit":
                self.classes |= ra.result_classes(leaf.a[0], leaf.a[1])
                n += 1
                continue
            if leaf is NONE:
                none.append(g)
                continue
            ok = False
        self.none_cond = disj(*none)
        self.is_unit = ok and n > 0
        self.uses_tag = "@tag" not in dict(self.cargs) and self._mentions_tag(st2)

    def _mentions_tag(self, st):
        t = attr(XML, "tag")

        def has(x):
            return any(y is t for y in walk(x))
        for o in st.heap.values():
            if any(isinstance(v, T) and has(v) for v in o.entries.values()):
                return True
            if any(has(g) or has(v) for g, v in o.items):
                return True
        for g, e in flat_events(self.events):
            if e.kind in ("consume", "runit", "rdispatch", "raise", "assert") and has(g):
                return True
            if e.kind == "assert" and has(e.data[0]):
                return True
        return has(self.value)

    def leaves(self, v, guard=TRUE):
        if v.op == "phi":
            yield from self.leaves(v.a[1], conj(guard, v.a[0]))
            yield from self.leaves(v.a[2], conj(guard, neg(v.a[0])))
            return
        yield guard, v

    def objects(self):
        """(guard, class, entries) for every object the unit can return"""
        if self.value is None:
            return
        for g, leaf in self.leaves(self.value):
            if leaf.op == "obj":
                o = self.heap[leaf]
                if o.kind == "inst":
                    yield g, o.cls, o.entries, leaf

    def flat(self):
        return flat_events(self.events)
