"""
Pairs every writer unit with the reader unit for the same XML element and
derives, per model class and attribute, where the value goes in the document
and where the reader takes it from.
"""
from .terms import (T, mk, C, NONE, TRUE, FALSE, is_const, cval, sym, attr, conj, disj, neg, phi, walk, show, data_walk,
                    BOOL_OPS, children as tchildren)
from .program import ClassInfo
from .writer_sum import El, Txt, Ws, UnitCall, Dispatch
from .reader_sum import XML, is_xml
from .interp import flat_events

ELEM = sym("elem")


class Slot:
    """one place in the document: path below the element, and what is there"""
    __slots__ = ("path", "kind", "guard", "term", "unit", "loc", "subject", "codec")

    def __init__(self, path, kind, guard, term, unit=None, loc="", subject=None):
        self.path = path
        self.kind = kind          # 'text' | '@NAME' | 'unit' | 'disp' | 'tail'
        self.guard = guard
        self.term = term
        self.unit = unit
        self.loc = loc
        self.subject = subject
        self.codec = None

    @property
    def where(self):
        p = "/".join(self.path) or "."
        return p + ("" if self.kind in ("text", "unit", "disp") else self.kind)

    @property
    def key(self):
        return self.path, ("node" if self.kind in ("unit", "disp") else self.kind)

    def __repr__(self):
        return f"{self.where}:{self.kind}"


# ------------------------------------------------------------------ writer side
def unit_tags(u):
    """tags of the elements a writer unit can produce at top level"""
    return {r.tag for r in u.roots if isinstance(r, El)}


def writer_slots(wa, u):
    """Slots of one writer unit, relative to its own element(s)"""
    out = []

    def node(n, path, extra):
        if isinstance(n, Ws):
            return
        if isinstance(n, Txt):
            out.append(Slot(path, "text", n.guard, n.term, loc=n.loc))
        elif isinstance(n, UnitCall):
            cu = wa.units.get(n.key)
            if cu is None:
                cu = wa.unit(*n.key)
            tags = unit_tags(cu)
            others = [r for r in cu.roots if not isinstance(r, (El, Ws))]
            for t in sorted(tags, key=str):
                out.append(Slot(path + (t if isinstance(t, str) else show(t),), "unit", n.guard, n.subject, unit=cu,
                                loc=n.loc, subject=n.subject))
            if others or not tags:
                # callee writes content straight into our element
                out.append(Slot(path, "splice", n.guard, n.subject, unit=cu, loc=n.loc, subject=n.subject))
        elif isinstance(n, Dispatch):
            out.append(Slot(path + ("*",), "disp", n.guard, n.args[0] if n.args else NONE, unit=n.table, loc=n.loc,
                            subject=n.args[0] if n.args else None))
        elif isinstance(n, El):
            t = n.tag if isinstance(n.tag, str) else show(n.tag)
            p2 = path + (t,)
            el(n, p2)

    def el(n, p):
        for g, name, val in n.attrs:
            out.append(Slot(p, "@" + (name if isinstance(name, str) else "?"), conj(n.guard, g), val, loc=n.loc))
        live = [c for c in n.children if not isinstance(c, Ws)]
        if not live:
            out.append(Slot(p, "empty", n.guard, NONE, loc=n.loc))
        else:
            out.append(Slot(p, "el", n.guard, NONE, loc=n.loc))
        for c in live:
            node(c, p, None)

    for r in u.roots:
        if isinstance(r, El):
            el(r, ())
        else:
            node(r, (), None)
    return out


def elem_attrs(t, guard_too=False):
    """names of the attributes of the written element that occur in a term"""
    res = set()
    for x in (walk(t) if guard_too else data_walk(t)):
        if x.op == "attr" and x.a[0] is ELEM:
            res.add(x.a[1])
    return res


def attr_paths(t, base=ELEM):
    """
    access paths below the element in the value part of a term:
    elem.name -> ('name',), each(elem.rules) -> ('rules','[]')
    """
    res = set()
    for x in data_walk(t):
        p = access_path(x, base)
        if p:
            res.add(p)
    # keep only maximal paths
    return {p for p in res if not any(q != p and q[:len(p)] == p for q in res)}


def access_path(x, base=ELEM):
    if x is base:
        return ()
    if x.op == "attr":
        b = access_path(x.a[0], base)
        return None if b is None else b + (x.a[1],)
    if x.op == "elem":
        b = access_path(x.a[0], base)
        return None if b is None else b + ("[]",)
    if x.op == "item":
        b = access_path(x.a[0], base)
        return None if b is None else b + ("[]",)
    if x.op == "call" and x.a[0] in ("iter", "list", "sorted", "tuple") and len(x.a) >= 2:
        return access_path(x.a[1], base)
    return None


# ------------------------------------------------------------------ reader side
def xml_path(x, guard):
    if x is XML:
        return ()
    if x.op == "child":
        b = xml_path(x.a[0], guard)
        return None if b is None else b + (x.a[1],)
    if x.op == "elem" and x.a[0].op == "children":
        b = xml_path(x.a[0].a[0], guard)
        if b is None:
            return None
        tag = x.a[0].a[1]
        if tag == "*":
            tg = attr(x, "tag")
            lits = guard.a if guard.op == "and" else (guard,)
            for l in lits:
                if l.op == "eq" and l.a[0] is tg and is_const(l.a[1]):
                    tag = cval(l.a[1])
        return b + (tag,)
    return None


def reader_leaves(ra, u, v, guard, out, seen=()):
    """collect (Slot) for every XML leaf in the value part of v"""
    if v.op == "phi":
        # a merged value: data in the condition counts when the arms are constants
        reader_leaves(ra, u, v.a[1], conj(guard, v.a[0]), out, seen)
        reader_leaves(ra, u, v.a[2], conj(guard, neg(v.a[0])), out, seen)
        if not has_leaf(v.a[1]) and not has_leaf(v.a[2]):
            for x in walk(v.a[0]):
                _leaf(x, guard, out, v)
        return
    if v.op == "obj":
        o = u.heap.get(v)
        if o is None or v in seen:
            return
        if o.kind in ("list", "set", "tuplelist"):
            if o.base is not None:
                reader_leaves(ra, u, o.base, guard, out, seen + (v,))
            for g, x in o.items:
                reader_leaves(ra, u, x, conj(guard, g), out, seen + (v,))
        else:
            for k, x in o.entries.items():
                if isinstance(k, T):
                    reader_leaves(ra, u, k, guard, out, seen + (v,))
                if x.op != "absent":
                    reader_leaves(ra, u, x, guard, out, seen + (v,))
        return
    if v.op == "runit":
        p = xml_path(v.a[2], guard)
        s = Slot(p, "unit", guard, v, unit=ra.units.get((v.a[0], v.a[1])))
        out.append(s)
        return
    if v.op == "rdisp":
        p = xml_path(v.a[1], guard)
        out.append(Slot(p, "disp", guard, v, unit=v.a[0]))
        return
    if _leaf(v, guard, out, v):
        return
    got = set()
    if v.op in BOOL_OPS:
        it = walk(v)
    else:
        it = data_walk(v)
    for x in it:
        if x is v:
            continue
        if x.op in ("runit", "rdisp") and x not in got:
            got.add(x)
            reader_leaves(ra, u, x, guard, out, seen)
            continue
        if x not in got and _leaf(x, guard, out, v):
            got.add(x)


def has_leaf(v):
    for x in walk(v):
        if x.op in ("runit", "rdisp", "xattr") or (x.op == "attr" and x.a[1] in ("text", "tail") and is_xml(x.a[0])):
            return True
        if x.op == "obj":
            return True
    return False


def _leaf(x, guard, out, whole):
    if x.op == "attr" and x.a[1] in ("text", "tail") and is_xml(x.a[0]):
        out.append(Slot(xml_path(x.a[0], guard), x.a[1], guard, whole))
        return True
    if x.op == "xattr":
        out.append(Slot(xml_path(x.a[0], guard), "@" + x.a[1], guard, whole))
        return True
    return False


def reader_slots(ra, u):
    """{class: {attribute: [Slot]}}"""
    res = {}
    for g, cls, entries, leaf in u.objects():
        d = res.setdefault(cls, {})
        for a, v in entries.items():
            if not isinstance(a, str) or v.op == "absent":
                continue
            out = []
            reader_leaves(ra, u, v, g, out)
            d.setdefault(a, []).extend(out)
    return res


# ------------------------------------------------------------------ pairs
class Pair:
    def __init__(self, wu, ru, tag, via):
        self.wu = wu
        self.ru = ru
        self.tag = tag
        self.via = via

    def __repr__(self):
        return f"{self.wu.name} <-> {self.ru.name} <{self.tag}>"


class Pairing:
    def __init__(self, wa, ra):
        self.wa = wa
        self.ra = ra
        self.pairs = {}
        self.wslots = {}
        self.rslots = {}
        self.unpaired_w = []
        self.table_pairs = []
        self.build()

    def ws(self, u):
        s = self.wslots.get(u)
        if s is None:
            s = self.wslots[u] = expand_splices(self.wa, writer_slots(self.wa, u))
        return s

    def rs(self, u):
        s = self.rslots.get(u)
        if s is None:
            s = self.rslots[u] = reader_slots(self.ra, u)
        return s

    def add(self, wu, ru, tag, via):
        k = (wu, ru)
        if k in self.pairs:
            return
        p = Pair(wu, ru, tag, via)
        self.pairs[k] = p
        self.work.append(p)

    def build(self):
        self.work = []
        wt, rt = self.wa.tables, self.ra.tables
        # tables that hold the element writers, keyed by class name; reader tables keyed by tag
        rtag = {}
        for tn in rt:
            for tag, v in self.ra.table_entries(tn).items():
                if v.op == "bound":
                    rtag.setdefault(tag, []).append((tn, v.a[1]))
        self.rtag = rtag
        for tn in wt:
            for cname, v in self.wa.table_entries(tn).items():
                if v.op != "bound":
                    continue
                f = v.a[1]
                for (ff, cargs), u in list(self.wa.units.items()):
                    if ff is not f:
                        continue
                    for tag in unit_tags(u):
                        if isinstance(tag, str) and tag in rtag:
                            for tn2, rf in rtag[tag]:
                                ru = self.ra.unit(rf)
                                if ru.uses_tag:
                                    ru = self.ra.unit(rf, ru.cargs + (("@tag", C(tag)),))
                                self.add(u, ru, tag, (tn, tn2))
        while self.work:
            p = self.work.pop()
            rs = self.rs(p.ru)
            byp = {}
            for cls, d in rs.items():
                for a, sl in d.items():
                    for s in sl:
                        if s.kind == "unit" and s.path is not None:
                            byp.setdefault(s.path, []).append(s.unit)
            for s in self.ws(p.wu):
                if s.kind == "unit":
                    for ru in byp.get(s.path, []):
                        if ru is not None:
                            self.add(s.unit, ru, s.path[-1] if s.path else p.tag, p)


def expand_splices(wa, slots):
    out = []
    for s in slots:
        if s.kind == "splice":
            for c in writer_slots(wa, s.unit):
                if c.kind in ("text", "unit", "disp") and c.subject is not None or c.kind == "text":
                    out.append(Slot(s.path + c.path, c.kind, conj(s.guard, TRUE), s.subject, unit=c.unit, loc=s.loc,
                                    subject=s.subject))
        else:
            out.append(s)
    return out
