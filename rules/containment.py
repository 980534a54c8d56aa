"""Parent links follow containment, and reference paths follow parent links."""
from sa.program import ClassInfo
from sa.terms import T, mk, C, NONE, TRUE, FALSE, sym, attr, conj, disj, neg, phi, walk, show, is_const, cval, BOOL_OPS, is_cond
from sa.bdd import MAX_ATOMS
from sa.ctor import leaves, param
from rules.arguments import Carry, declared, is_abstract
from sa.interp import HObj, Interp, State, Unreachable, flat_events
from sa.methods import ME, MethodPolicy

SKIP_MODULES = ("autosar.model",)
ATOMS = BOOL_OPS - {"and", "or", "not"}
ADD = {"append": 0, "insert": 1, "add": 0, "appendleft": 0}
BULK = {"extend": 0, "update": 0}


def base_class(prog, name):
    return next(c for c in prog.classes if c.name == name and c.module.name == "autosar.xml.element")


class Slots:
    """attributes of model classes that hold identifiable elements"""

    def __init__(self, s):
        self.s = s
        self.root = base_class(s.prog, "Referrable")
        self.cache = {}

    def elems(self, ts, depth=0):
        out = set()
        for x in ts or ():
            if isinstance(x, tuple):
                if x[0] != "dict" and depth == 0:
                    out |= self.elems(x[1], 1)
            elif isinstance(x, ClassInfo) and self.root in x.mro:
                out.add(x)
        return out

    def of(self, c):
        """{attribute: True when a collection}"""
        if c not in self.cache:
            self.cache[c] = None
            r = {}
            ct = self.s.ctors.get(c)
            for a in ct.entries:
                if a == "parent":
                    continue
                ts = self.s.ctors.attr_type(c, a)
                if self.elems(ts):
                    r[a] = any(isinstance(x, tuple) for x in ts)
            self.cache[c] = r
        return self.cache[c] or {}

    def held(self, c):
        """{attribute: {inner attribute}} for attributes of unnamed objects that hold an identifiable"""
        out = {}
        ct = self.s.ctors.get(c)
        for a in ct.entries:
            if a == "parent":
                continue
            ts = self.s.ctors.attr_type(c, a) or ()
            flat = set()
            for x in ts:
                flat |= set(x[1]) if isinstance(x, tuple) and x[0] != "dict" else {x}
            for x in flat:
                if isinstance(x, ClassInfo) and not x.is_enum and self.root not in x.mro and not x.lookup("update_ref_parts"):
                    inner = {k for k, many in self.of(x).items() if not many}
                    if inner:
                        out.setdefault(a, {}).setdefault(x, set()).update(inner)
        return out


class Final:
    """conditions under which values end up with the owner as their parent"""

    def __init__(self, events, heap, me):
        self.heap = heap
        self.me = me
        self.links = {}          # value -> [(guard, parent)] in order
        for g, e in events:
            if e.kind == "setattr" and e.data[1] == "parent":
                for g2, x in leaves(e.data[0], g):
                    self.links.setdefault(x, []).append((g2, e.data[2]))

    def linked(self, x):
        """condition under which the final parent of x is the owner"""
        r = FALSE
        if x.op == "obj" and x in self.heap and isinstance(self.heap[x].entries, dict):
            p = self.heap[x].entries.get("parent")
            if isinstance(p, T):
                for g, v in leaves(p):
                    if v is self.me:
                        r = disj(r, g)
                return r
        for g, p in self.links.get(x, ()):
            hit = disj(*[g2 for g2, v in leaves(p) if v is self.me]) if isinstance(p, T) else FALSE
            r = disj(conj(r, neg(g)), conj(g, hit))
        return r


def insertions(s, c, events, heap, me, slots, entries):
    """[(guard, slot, value)] of everything put into a slot of the owner"""
    out = []
    lists = {}
    for a, many in slots.items():
        v = entries.get(a) if entries is not None else None
        if isinstance(v, T):
            for g, x in leaves(v):
                o = heap.get(x) if x.op == "obj" else None
                if o is not None and many:
                    lists[x] = a
                    for it in o.items or ():
                        if isinstance(it, tuple) and isinstance(it[1], T):
                            for g2, y in leaves(it[1], conj(g, it[0])):
                                out.append((g2, a, y))
                    if isinstance(o.base, T) and o.base is not attr(me, a):
                        out.append((conj(g, mk("loop", o.base)), a, mk("elem", o.base)))
                elif x is NONE or x is attr(me, a):
                    continue
                elif many:
                    out.append((conj(g, mk("loop", x)), a, mk("elem", x)))
                else:
                    out.append((g, a, x))
    for g, e in events:
        if e.kind == "mcall" and isinstance(e.data[0], T) and e.data[0].op == "attr" and e.data[0].a[0] is me:
            a, name, pos = e.data[0].a[1], e.data[1], e.data[2]
            if a not in slots:
                continue
            if name in ADD and len(pos) > ADD[name]:
                for g2, y in leaves(pos[ADD[name]], g):
                    out.append((g2, a, y))
            elif name in BULK and pos:
                for g2, y in leaves(pos[0], g):
                    o = heap.get(y)
                    if o is not None and o.items is not None and o.base is None:
                        for it in o.items:
                            if isinstance(it, tuple):
                                out.append((conj(g2, it[0]), a, it[1]))
                    else:
                        out.append((conj(g2, mk("loop", y)), a, mk("elem", y)))
        elif e.kind == "setitem" and isinstance(e.data[0], T) and e.data[0] in [attr(me, a) for a in slots]:
            for g2, y in leaves(e.data[2], g):
                out.append((g2, e.data[0].a[1], y))
        elif e.kind == "setattr" and e.data[0] is me and e.data[1] in slots and entries is None:
            a = e.data[1]
            for g2, y in leaves(e.data[2], g):
                if y is NONE or y is attr(me, a):
                    continue
                o = heap.get(y) if y.op == "obj" else None
                if slots[a] and o is not None and o.items is not None:
                    for it in o.items:
                        if isinstance(it, tuple):
                            out.append((conj(g2, it[0]), a, it[1]))
                    if isinstance(o.base, T) and o.base is not attr(me, a):
                        out.append((conj(g2, mk("loop", o.base)), a, mk("elem", o.base)))
                elif slots[a]:
                    out.append((conj(g2, mk("loop", y)), a, mk("elem", y)))
                else:
                    out.append((g2, a, y))
    return out


def judge(s, rep, c, what, where, events, heap, me, slots, held, entries, imprecise):
    raises = [g for g, e in events if e.kind == "raise"]
    fin = Final(events, heap, me)
    todo = [(g, a, y, None) for g, a, y in insertions(s, c, events, heap, me, slots, entries)]
    for g, a, y in insertions(s, c, events, heap, me, {k: True for k in held}, entries) if held else ():
        for k, inner in held[a].items():
            for i in inner:
                if y.op == "obj" and y in heap:
                    if heap[y].cls is k and isinstance(heap[y].entries.get(i), T):
                        for g2, z in leaves(heap[y].entries[i], g):
                            if z is not NONE:
                                todo.append((g2, a, z, i))
                else:
                    z = attr(y, i)
                    todo.append((conj(g, mk("nn", z), mk("inst", y, mk("cls", k))), a, z, i))
    seen = {}
    for g, a, y, i in todo:
        if y is NONE:
            continue
        k = (a, i, y)
        seen[k] = disj(seen.get(k, FALSE), g)
    for (a, i, y), g in seen.items():
        rep.count("insertions")
        dom = FALSE
        h = s.ctors.attr_type(c, a) if i is None else None
        alts = Slots.elems_cached(s, h) if h else ()
        for x in alts:
            dom = disj(dom, mk("inst", y, mk("cls", x)))
        if y.op == "obj" or not alts:
            dom = TRUE
        r = conj(g, mk("nn", y) if y.op != "obj" else TRUE, dom, neg(fin.linked(y)))
        if r is not FALSE:
            atoms = {z for z in walk(r) if z.op in ATOMS}
            r = conj(r, *[neg(x) for x in raises if any(z in atoms for z in walk(x))])
        if r is FALSE:
            rep.ok()
        elif imprecise:
            rep.skip(f"{what}: {a} ({imprecise[0]})")
        elif len({z for z in walk(r) if is_cond(z) and z.op not in ("and", "or", "not")}) > MAX_ATOMS:
            rep.skip(f"{what}: {a} (too many cases)")
        else:
            slot = a if i is None else f"{a}.{i}"
            rep.find(f"parent:{what}:{slot}", f"{what} puts an element into {slot} of {c.name} without making that "
                     f"{c.name} its parent", where, f"{show(y)[:60]} when {show(r)[:200]}")
    return len(seen)


def _elems_cached(s, ts):
    return s.__dict__.setdefault("_slots", Slots(s)).elems(ts)


Slots.elems_cached = staticmethod(_elems_cached)


def containers(s, rep):
    sl = s.__dict__.setdefault("_slots", Slots(s))
    for c in s.prog.classes:
        if c.is_enum or c.module.name.startswith(SKIP_MODULES) or not c.lookup("update_ref_parts"):
            continue
        slots = sl.of(c)
        held = sl.held(c)
        if not slots and not held:
            continue
        rep.count("containers")
        rep.count("slots", len(slots) + len(held))
        ct = s.ctors.get(c)
        where = f"{c.module.relpath}:{c.node.lineno}" if hasattr(c.module, "relpath") else c.name
        if not ct.dead and ct.obj is not None:
            judge(s, rep, c, c.name, where, list(flat_events(ct.events)), ct.heap, ct.obj, slots, held, ct.entries,
                  ct.imprecise)
        for f in c.methods.values():
            if f.name == "__init__" or f.is_static or f.is_classmethod or (f.name.startswith("_") and not f.setter_of):
                continue
            r = s.methods.run(c, f)
            if r.failed:
                rep.skip(f"{f.qual}: {r.failed}")
                continue
            rep.count("methods")
            judge(s, rep, c, f.qual, f"{c.module.relpath}:{f.node.lineno}" if hasattr(c.module, "relpath") else f.qual,
                  r.flat(), r.heap, ME, slots, held, None, r.imprecise)


# ------------------------------------------------------------------ additions

def additions(s, rep):
    """a value given to an append method of a model class ends up in a collection of the object, or is refused"""
    for c in s.prog.classes:
        if c.is_enum or c.module.name.startswith(SKIP_MODULES) or not c.module.name.startswith("autosar.xml"):
            continue
        for f in c.methods.values():
            if not f.name.startswith(("append", "extend")) or f.is_static or f.is_classmethod or len(f.pos) < 2:
                continue
            if is_abstract(f):
                continue
            r = s.methods.run(c, f)
            where = f"{c.module.relpath}:{f.node.lineno}"
            if r.failed:
                rep.skip(f"{f.qual}: {r.failed}")
                continue
            p = param(f.pos[1])
            an = f.annotation(f.pos[1])
            ts = s.prog.ann_types(an, f.module) if an is not None else set()
            lst = any(isinstance(x, tuple) or x in ("list", "Iterable") for x in ts)
            y = mk("elem", p) if lst else p
            kept = FALSE
            for g, e in r.flat():
                src = []
                if e.kind == "mcall" and own(e.data[0]):
                    if e.data[1] in ADD and len(e.data[2]) > ADD[e.data[1]]:
                        src = [e.data[2][ADD[e.data[1]]]]
                    elif e.data[1] in BULK and e.data[2]:
                        src = [e.data[2][0]]
                    elif e.data[1] not in ("get", "index", "count", "items", "keys", "values", "copy"):
                        rep.skip(f"{f.qual}: {e.data[1]} on an own collection")
                elif e.kind in ("setitem", "setattr") and (own(e.data[0]) or e.data[0] is ME) and isinstance(e.data[2], T):
                    src = [e.data[2]]
                for x in src:
                    for z in (p, y):
                        kept = disj(kept, conj(g, Carry(r.heap, z).of(x)))
            raises = [g for g, e in r.flat() if e.kind == "raise"]
            rep.count("append methods")
            res = conj(mk("nn", p), declared(p, ts) if not lst else mk("loop", p), neg(kept),
                       *[neg(g) for g in raises])
            if res is FALSE:
                rep.ok()
            elif r.imprecise:
                rep.skip(f"{f.qual}: {r.imprecise[0]}")
            else:
                rep.find(f"dropped:{f.qual}", f"{f.qual} neither keeps nor refuses a value it is given", where,
                         "when " + show(res)[:200])


def own(t):
    return isinstance(t, T) and t.op == "attr" and t.a[0] is ME


# ------------------------------------------------------------------ paths

def chain(s, c, f, classes):
    """run method f of class c on an object held by fresh objects of the given classes (outermost first)"""
    pol = MethodPolicy(s.ctors)
    pol.max_recursion = 8
    ip = Interp(s.prog, pol)
    ip.next_id = 800000
    st = State()
    parent = NONE
    names = []
    for i, k in enumerate(classes):
        t = sym(f"box{i}")
        o = HObj("inst", k, t)
        o.entries["parent"] = parent
        n = sym(f"name{i}")
        ip.sym_types[n] = {"str"}
        o.entries["name"] = n
        names.append((k, n))
        st.heap[t] = o
        ip.sym_certain[t] = {k}
        parent = t
    o = HObj("inst", c, ME)
    n = sym("own")
    ip.sym_types[n] = {"str"}
    o.entries["name"] = n
    o.entries["parent"] = parent
    st.heap[ME] = o
    ip.sym_certain[ME] = {c}
    try:
        v, st2, ev = ip.run(f, {f.pos[0]: ME}, st, ME)
    except Unreachable:
        return None, st, names, n, ip
    return v, st2, names, n, ip


def text(v):
    """flat parts of a string value, or None"""
    if v.op == "fstr":
        out = []
        for x in v.a:
            y = text(x) if isinstance(x, T) else [x] if isinstance(x, str) else None
            if y is None:
                return None
            out += y
        return merge(out)
    if is_const(v) and isinstance(cval(v), str):
        return [cval(v)] if cval(v) else []
    if v.op == "call" and v.a[0] == "str" and len(v.a) == 2:
        return text(v.a[1])
    if v.op == "fmt" and isinstance(v.a[0], T):
        return text(v.a[0])
    if v.op in ("sym", "attr"):
        return [v]
    return None


def merge(parts):
    out = []
    for x in parts:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return out


def paths(s, rep):
    root = next(c for c in s.prog.classes if c.name == "PackageCollection")
    pkg = base_class(s.prog, "Package")
    ref = base_class(s.prog, "Referrable")
    sl = s.__dict__.setdefault("_slots", Slots(s))
    holders = {}
    for c in s.prog.classes:
        if c.is_enum or c.module.name.startswith(SKIP_MODULES) or not c.lookup("update_ref_parts"):
            continue
        for a, many in sl.of(c).items():
            for x in sl.elems(s.ctors.attr_type(c, a)):
                holders.setdefault(x, []).append(c)
    roots = [c for c in s.prog.classes if root in c.mro]
    for c in s.prog.classes:
        if c.is_enum or ref not in c.mro or c.module.name.startswith(SKIP_MODULES):
            continue
        f = c.lookup("ref")
        if f is None:
            continue
        where = f"{c.module.relpath}:{f.node.lineno}" if hasattr(c.module, "relpath") else f.qual
        rep.count("classes with a reference")
        sup = {x for x in c.mro if isinstance(x, ClassInfo)}
        inner = []
        for x, hs in holders.items():
            if x in sup:
                for h in hs:
                    if h is not pkg and ref in h.mro and h not in inner:
                        inner.append(h)
        chains = [[r] for r in roots] if c is pkg else []
        chains += [[root, pkg], [root] + [pkg] * 6]
        for h in inner[:4]:
            chains += [[root, pkg, h], [root, pkg, pkg, h]]
        for ch in chains:
            one_path(s, rep, c, f, ch, where, True)
        for ch in ([], [pkg], [pkg, pkg]):
            one_path(s, rep, c, f, ch, where, False)


def one_path(s, rep, c, f, ch, where, rooted):
    v, st, names, own, ip = chain(s, c, f, ch)
    rep.count("paths")
    desc = "/".join([k.name for k in ch] + [c.name])
    if v is None:
        rep.find(f"path:{f.qual}:{c.name}", f"{f.qual} of {c.name} always fails", where, desc)
        return
    alts = [(g, x) for g, x in leaves(v) if g is not FALSE]
    if not rooted:
        if all(x is NONE for g, x in alts):
            rep.ok()
        elif any(x is not NONE and x.op != "obj" for g, x in alts):
            rep.skip(f"{c.name}.ref in {desc}: {show(v)[:80]}")
        else:
            rep.find(f"path:{c.name}:unrooted", f"{f.qual} of {c.name} gives a reference although the element is not "
                     f"inside a document or workspace", where, desc)
        return
    want = []
    for k, n in names[1:]:
        want += ["/", n]
    want += ["/", own]
    for g, x in alts:
        o = st.heap.get(x) if x.op == "obj" else None
        val = o.entries.get("value") if o is not None else None
        got = text(val) if isinstance(val, T) else None
        if x is NONE:
            rep.find(f"path:{c.name}:none", f"{f.qual} of {c.name} gives no reference for an element inside a document or "
                     f"workspace", where, f"{desc} when {show(g)[:120]}")
        elif got is None:
            rep.skip(f"{c.name}.ref in {desc}: {show(val if isinstance(val, T) else x)[:80]}")
        elif got != want:
            rep.find(f"path:{c.name}:text", f"{f.qual} of {c.name} gives a path that is not the container's path followed "
                     f"by the name", where, f"in {desc}: " + "".join(y if isinstance(y, str) else "<" + show(y) + ">" for y in got))
        else:
            rep.ok()


def run(s, rep):
    containers(s, rep)
    paths(s, rep)
