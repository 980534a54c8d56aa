"""Arguments of constructors and creation methods reach the attribute they name."""
from sa.program import ClassInfo
from sa.terms import T, mk, C, NONE, TRUE, FALSE, conj, disj, neg, subst, walk, data_walk, show, is_const, BOOL_OPS
from sa.ctor import param, leaves, type_term

MODULES = ("autosar.xml.element", "autosar.xml.document", "autosar.xml.base", "autosar.xml.workspace",
           "autosar.xml.template", "autosar.model.element", "autosar.xml.reference")
# attribute that holds an argument of another name
ALIASES = {"xml_ref": ("ref",), "value": ("_value",), "long_name": ("elements",), "paragraph": ("elements",),
           "element": ("elements",), "scale_constr": ("scale_constrs",), "internal_behavior": ("_internal_behavior",),
           "name": ("short_name", "value"), "file_path": ("path",)}
CONTAINERS = ("list", "dict", "tuple", "set", "Iterable", "Iterator", "Sequence")
# keys of results that are the documented meaning of the argument
DOCUMENTED = {"NumericalValue.value_format:ValueFormat": "a text value starting with 0x or 0b sets the format itself",
              "SwcInternalBehavior.create_runnable:symbol:str|not bool(p:symbol)":
              "an empty symbol stands for the name of the runnable"}
CONV = ("str", "int", "float", "bool", "list", "tuple", "dict", "set", "sorted")


class Carry:
    """the condition under which a value holds the argument src"""

    def __init__(self, heap, src, types=()):
        self.heap = heap
        t = {x[0] if isinstance(x, tuple) else x for x in types if x != "None"}
        self.types = t if t and "any" not in t else None
        self.src = src
        self.memo = {}
        self.opaque = set()

    def of(self, v, depth=0):
        if not isinstance(v, T) or depth > 12:
            return FALSE
        k = v
        if k not in self.memo:
            self.memo[k] = FALSE
            self.memo[k] = self._of(v, depth)
        return self.memo[k]

    def _of(self, v, d):
        if v is self.src:
            return TRUE
        op = v.op
        if op == "phi":
            return disj(conj(v.a[0], self.of(v.a[1], d + 1)), conj(neg(v.a[0]), self.of(v.a[2], d + 1)))
        if op == "obj":
            o = self.heap.get(v)
            if o is None:
                return FALSE
            parts = []
            if isinstance(o.base, T):
                parts.append(self.of(o.base, d + 1))
            for it in o.items or ():
                if isinstance(it, tuple) and isinstance(it[1], T):
                    parts.append(conj(it[0], self.of(it[1], d + 1)))
            for a, e in (o.entries or {}).items():
                if a != "parent" and isinstance(e, T):
                    parts.append(self.of(e, d + 1))
            return disj(*parts)
        if op == "call":
            if v.a[0] in CONV:
                if v.a[1:2] == (self.src,):
                    return self.keeps(v.a[0])
                return disj(*[self.of(x, d + 1) for x in v.a[1:2]])
            if self.depends(v):
                self.opaque.add(v.a[0])
            return disj(*[self.of(x, d + 1) for x in v.a[1:] if isinstance(x, T)]) if v.a[0] in (
                "xml_to_enum", "enum_to_xml") else FALSE
        if op == "truthy":
            if v.a[0] is self.src:
                return self.keeps("bool")
            return self.of(v.a[0], d + 1)
        if op in ("attr", "item", "elem", "stararg", "kwget", "each"):
            return self.of(v.a[0], d + 1)
        if op in ("tup", "fstr"):
            return disj(*[self.of(x, d + 1) for x in v.a if isinstance(x, T)])
        if op in ("fmt", "gi", "dictval"):
            return disj(*[self.of(x, d + 1) for x in v.a if isinstance(x, T)])
        if op in ("mcall", "unit") and self.depends(v):
            self.opaque.add(show(v)[:60])
        return FALSE

    def keeps(self, conv):
        """condition under which the conversion keeps a value of the declared types"""
        t = self.types
        if t is None:
            return TRUE
        if conv == "bool":
            return TRUE if t <= {"bool"} else mk("inst", self.src, mk("ext", "bool"))
        if conv == "int":
            return neg(mk("inst", self.src, mk("ext", "float"))) if "float" in t else TRUE
        if conv == "float":
            return TRUE if t & {"float", "int", "str"} else FALSE
        return TRUE

    def depends(self, v):
        return any(x is self.src for x in walk(v))


def deps(heap, v, seen=None):
    """names of the arguments a value is made of"""
    seen = set() if seen is None else seen
    out = set()
    if not isinstance(v, T):
        return out
    for x in data_walk(v):
        if x.op == "sym" and str(x.a[0]).startswith("p:"):
            out.add(x.a[0][2:])
        if x.op == "obj" and x not in seen:
            seen.add(x)
            o = heap.get(x)
            if o is None:
                continue
            for it in o.items or ():
                if isinstance(it, tuple) and isinstance(it[1], T):
                    out |= deps(heap, it[1], seen)
            for k, y in (o.entries or {}).items():
                if k != "parent":
                    out |= deps(heap, y, seen)
            if isinstance(o.base, T):
                out |= deps(heap, o.base, seen)
    return out


def all_deps(heap, v, seen=None):
    """deps including the conditions inside the value"""
    seen = set() if seen is None else seen
    out = set()
    if not isinstance(v, T):
        return out
    for x in walk(v):
        if x.op == "sym" and str(x.a[0]).startswith("p:"):
            out.add(x.a[0][2:])
        if x.op == "obj" and x not in seen:
            seen.add(x)
            o = heap.get(x)
            if o is None:
                continue
            for it in o.items or ():
                for z in (it if isinstance(it, tuple) else (it,)):
                    out |= all_deps(heap, z, seen)
            for k, y in (o.entries or {}).items():
                if k != "parent":
                    out |= all_deps(heap, y, seen)
            out |= all_deps(heap, o.base, seen)
    return out


def container(x):
    return (isinstance(x, tuple) and x[0] in CONTAINERS) or x in CONTAINERS


def type_alts(types):
    """the declared alternatives except None"""
    return [x for x in types if x != "None"]


def inst_of(t, x):
    """condition: value t is of declared type x; None when it cannot be said"""
    ty = type_term(x)
    return None if ty is None else mk("inst", t, ty)


def declared(p, types, depth=0):
    """condition: present value p has one of its declared types"""
    alts = type_alts(types)
    if not alts or "any" in types:
        return TRUE
    cs = []
    for x in alts:
        c = inst_of(p, x)
        if c is None:
            return TRUE
        if isinstance(x, tuple) and depth < 2:
            if len(x) > 1 and isinstance(x[1], frozenset):
                c = conj(c, declared(mk("elem", p), x[1], depth + 1))
        cs.append(c)
    return disj(*cs)


def assume_loops(g, p):
    """a container argument has an item"""
    m = {}
    for y in walk(g):
        if y.op == "loop":
            m[y] = TRUE
        elif y.op == "truthy" and y.a[0] is p:
            m[y] = TRUE
        elif y.op == "inst" and y.a[0] is p and y.a[1].op == "ext" and str(y.a[1].a[0]).endswith("Iterable"):
            pass
    return subst(g, m) if m else g


def about(raises, *ps):
    """the error conditions that concern the given arguments"""
    return [g for g in raises if any(x in ps for x in walk(g))]


def residual(heap, v, p, types, raises, g=TRUE):
    """(condition under which a present argument p is not in value v, opaque calls on the way)"""
    c = Carry(heap, p, types)
    kept = c.of(v)
    dom = declared(p, types)
    cont = [x for x in type_alts(types) if container(x)]
    r = conj(g, mk("nn", p), dom, neg(kept))
    if r is FALSE:
        return r, c.opaque
    r = conj(r, *[neg(x) for x in about(raises, p)])
    if r is FALSE:
        return r, c.opaque
    loops = {y for y in walk(r) if y.op == "loop" and any(z is p for z in walk(y))}
    if loops or cont:
        m = {y: TRUE for y in loops}
        if cont and len(cont) == len(type_alts(types)):
            m[mk("truthy", p)] = TRUE
        r = conj(subst(r, m), mk("nn", p), subst(dom, m))
    return r, c.opaque


def cases(key, r, t, types):
    """[(key, condition)]: one case per declared type, named by the conditions the loss needs"""
    out = {}
    alts = [x for x in type_alts(types) if inst_of(t, x) is not None] if "any" not in types else []
    for x in alts or [None]:
        dom = conj(mk("nn", t), declared(t, types), inst_of(t, x) if x is not None else TRUE)
        rx = conj(r, dom)
        if rx is FALSE:
            continue
        need = set()
        for y in {y for y in walk(rx) if y.op in BOOL_OPS and y.op not in ("and", "or", "not")}:
            if not any(z is t for z in walk(y)):
                continue
            for lit in (y, neg(y)):
                if conj(rx, neg(lit)) is FALSE and conj(dom, neg(lit)) is not FALSE:
                    need.add(show(lit))
        out[key + (":" + tname(x) if x is not None else "") + ("|" + " & ".join(sorted(need)) if need else "")] = rx
    return sorted(out.items())


def _honest(term):
    """the refusal says that the case is not supported"""
    return "NotImplementedError" in show(term)[:40]


def constructors(s, rep):
    for c in s.prog.classes:
        if c.module.name not in MODULES or c.is_enum:
            continue
        ct = s.ctors.get(c)
        if ct.dead or not ct.params:
            continue
        rep.count("constructors")
        where = f"{c.module.relpath}:{c.node.lineno}" if hasattr(c.module, "relpath") else c.name
        for kind, f, name, g in ct.bad:
            rep.find(f"{kind}:{c.name}:{name}", f"the constructor of {c.name} calls a base constructor with a wrong "
                     f"argument list: {kind} {name}", where)
        raises = [r[0] for r in ct.raises]
        D = {a: deps(ct.heap, v) for a, v in ct.entries.items()}
        for p in ct.params:
            rep.count("constructor arguments")
            key = f"ctor:{c.name}.{p}"
            t = param(p)
            types = ct.types.get(p, set())
            home = [p] if p in ct.entries else [a for a in ALIASES.get(p, ()) if a in ct.entries]
            if not home:
                used = {a for a in ct.entries if p in D[a]}
                ev = any(p in all_deps(ct.heap, x) for g, e in _flat(ct) for x in _terms(e) + [g])
                if used or ev:
                    rep.ok()
                else:
                    rep.find(f"unused:{c.name}.{p}", f"the argument {p} of {c.name} reaches no attribute", where)
                continue
            a = home[0]
            r, opaque = residual(ct.heap, ct.entries[a], t, types, raises)
            if r is FALSE:
                rep.ok()
            elif opaque:
                rep.skip(f"{c.name}.{p}: converted by {sorted(opaque)[:2]}")
                continue
            else:
                for key, cond in cases(f"{c.name}.{p}", r, t, types):
                    if key in DOCUMENTED:
                        rep.count("documented exceptions")
                        continue
                    rep.find("lost:" + key, f"{c.name} does not keep the argument {p} in its attribute {a}", where,
                             "when " + show(cond)[:300])
                continue
            # nothing else replaces or joins it
            if a == p:
                own = {p}
                bad = set()
                for g, y in leaves(ct.entries[a]):
                    g2 = conj(g, mk("nn", t))
                    if g2 is FALSE:
                        continue
                    for q in deps(ct.heap, y) - own:
                        if q in ct.params:
                            bad |= foreign(ct, y, q, conj(g2, *[neg(x) for x in about(raises, t, param(q))]), t)
                if bad:
                    rep.find(f"mixed:{c.name}.{p}", f"the attribute {p} of {c.name} also takes the argument "
                             f"{', '.join(sorted(bad))}", where, show(ct.entries[a])[:200])
                else:
                    rep.ok()
            acceptance(rep, c, ct, p, t, types, where)


def foreign(ct, y, q, g, t):
    """{q} when the value y takes argument q while argument t is present"""
    c = Carry(ct.heap, param(q))
    k = conj(c.of(y), g, mk("nn", param(q)), declared(t, ct.types.get(t.a[0][2:], set())),
             declared(param(q), ct.types.get(q, set())))
    return {q} if k is not FALSE else set()


def acceptance(rep, c, ct, p, t, types, where):
    """a value of a declared type, given alone, is not refused for its type"""
    for x in type_alts(types):
        it = inst_of(t, x)
        if it is None or "any" in types:
            continue
        m = {}
        for q in ct.params:
            if q != p and q in ct.defaults and _none_default(ct.defaults[q]):
                m[mk("nn", param(q))] = FALSE
                m[mk("truthy", param(q))] = FALSE
        bad = None
        for g, term, f, line in ct.raises:
            g1 = subst(g, m)
            for y in walk(g1):
                if y.op == "inst" and y.a[0].op == "sym" and m.get(mk("nn", y.a[0])) is FALSE:
                    g1 = subst(g1, {y: FALSE})
            if not any(y is t for y in walk(g1)) or _honest(term):
                continue
            if conj(mk("nn", t), it, neg(g1)) is FALSE:
                bad = term
                break
        if bad is not None:
            rep.find(f"refused:{c.name}.{p}:{tname(x)}", f"{c.name} refuses every {tname(x)} given as {p}, a type it declares",
                     where, show(bad)[:160])
        else:
            rep.ok()


def tname(x):
    if isinstance(x, ClassInfo):
        return x.name
    if isinstance(x, tuple):
        return str(x[0])
    return str(x)


def _none_default(d):
    import ast
    return isinstance(d, ast.Constant) and d.value is None


def _flat(ct):
    from sa.interp import flat_events
    m = ct.__dict__.get("_flat")
    if m is None:
        m = ct._flat = list(flat_events(ct.events))
    return m


def _terms(e):
    out = []
    todo = list(e.data)
    while todo:
        d = todo.pop()
        if isinstance(d, T):
            out.append(d)
        elif isinstance(d, (tuple, list)):
            todo.extend(d)
        elif isinstance(d, dict):
            todo.extend(d.values())
    return out


def mentions(heap, o, t):
    return any(x is t for v in o.entries.values() if isinstance(v, T) for x in walk(v)) or any(
        x is t for v in o.entries.values() if isinstance(v, T) for _, y in leaves(v) if y.op == "obj" and y in heap
        for it in heap[y].items or () if isinstance(it, tuple) for z in it if isinstance(z, T) for x in walk(z))


def is_abstract(f):
    """the body only raises or is empty"""
    import ast
    body = [n for n in f.node.body if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))]
    return all(isinstance(n, (ast.Raise, ast.Pass)) for n in body) or any(
        getattr(d, "id", getattr(d, "attr", "")) == "abstractmethod" for d in f.node.decorator_list)


def methods(s, rep):
    for c in s.prog.classes:
        if c.module.name not in MODULES + ("autosar.base",) or c.is_enum:
            continue
        for f in c.methods.values():
            if f.name.startswith("_") or f.is_property or f.setter_of or is_abstract(f):
                continue
            method(s, rep, c, f)


def method(s, rep, c, f):
    r = s.methods.run(c, f)
    where = f"{c.module.relpath}:{f.node.lineno}" if hasattr(c.module, "relpath") else f.qual
    ps = list(f.pos)[0 if f.is_static else 1:] + list(f.kwonly)
    if f.kwarg:
        ps.append("**" + f.kwarg)
    if not ps:
        return
    rep.count("methods with arguments")
    if r.failed:
        rep.skip(f"{f.qual}: {r.failed}")
        return
    if r.value is None:
        if any(e.kind == "raise" for g, e in r.flat()):
            return                  # never returns
        rep.skip(f"{f.qual}: not evaluated")
        return
    used = set(all_deps(r.heap, r.value))
    raises = []
    for g, e in r.flat():
        if e.kind == "raise":
            raises.append(g)
        if set(ps) <= used:
            continue
        used |= all_deps(r.heap, g)
        for x in _terms(e):
            used |= all_deps(r.heap, x)
    for p in ps:
        rep.count("method arguments")
        if p in used:
            rep.ok()
        else:
            rep.find(f"unused:{f.qual}:{p}", f"{f.qual} ignores its argument {p}", where)
    if not (f.name.startswith("create_") or f.name.startswith("make_")):
        return
    done = set()
    for g, x in leaves(r.value):
        o = r.heap.get(x) if x.op == "obj" else None
        if o is None or o.kind != "inst" or not isinstance(o.cls, ClassInfo) or o.cls in done:
            continue
        ct = s.ctors.get(o.cls)
        rep.count("created objects")
        for p in ps:
            if p.startswith("**"):
                src = param(p)
                for q in ct.params:
                    home = [a for a in (q,) + ALIASES.get(q, ()) if a in o.entries]
                    kq = mk("kwget", src, q)
                    if q in ps or not home or not mentions(r.heap, o, kq):
                        continue
                    res, opaque = residual(r.heap, o.entries[home[0]], kq, ct.types.get(q, set()), raises, g)
                    if res is FALSE:
                        rep.ok()
                    elif opaque or r.imprecise:
                        rep.skip(f"{f.qual}: {q} in {o.cls.name}")
                    elif f"{o.cls.name}.{q}" in [k.split(":")[0] for k in DOCUMENTED] or \
                            any(k.startswith(f"lost:{o.cls.name}.{q}") for k in rep.findings):
                        continue
                    else:
                        rep.find(f"lost:{f.qual}:**{q}", f"{f.qual} does not pass the keyword argument {q} on to the "
                                 f"{o.cls.name} it creates", where, "when " + show(res)[:300])
                continue
            home = [a for a in (p,) + ALIASES.get(p, ()) if a in o.entries]
            if not home or p not in used:
                continue
            an = f.annotation(p)
            types = s.prog.ann_types(an, f.module) if an is not None else set()
            res, opaque = residual(r.heap, o.entries[home[0]], param(p), types, raises, g)
            if res is FALSE:
                rep.ok()
            elif opaque or r.imprecise or any(
                    p in deps(r.heap, y) and conj(res, g2) is not FALSE for g2, y in leaves(o.entries[home[0]])):
                rep.skip(f"{f.qual}: {p} in {o.cls.name}")
            else:
                for key, cond in cases(f"{f.qual}:{p}", res, param(p), types):
                    if key.replace(f"(p:{p} == '')", f"not bool(p:{p})") in DOCUMENTED:
                        rep.count("documented exceptions")
                        continue
                    rep.find("lost:" + key, f"{f.qual} does not pass its argument {p} on to the {o.cls.name} it creates",
                             where, "when " + show(cond)[:300])


def run(s, rep):
    constructors(s, rep)
    methods(s, rep)
