"""Short names stay unique within packages and package collections."""
from sa.program import ClassInfo
from sa.terms import T, mk, C, NONE, TRUE, FALSE, attr, conj, disj, neg, walk, show, subst, is_const, cval, BOOL_OPS
from sa.ctor import leaves, param
from sa.interp import flat_events
from sa.methods import ME
from rules.containment import Slots, insertions, base_class, SKIP_MODULES

ATOMS = BOOL_OPS - {"and", "or", "not"}


def named(s):
    """classes that hold packages or package elements"""
    sl = s.__dict__.setdefault("_slots", Slots(s))
    want = {base_class(s.prog, "Package"), base_class(s.prog, "ARElement")}
    for c in s.prog.classes:
        if c.is_enum or c.module.name.startswith(SKIP_MODULES) or not c.lookup("update_ref_parts"):
            continue
        slots = {a: m for a, m in sl.of(c).items() if m and sl.elems(s.ctors.attr_type(c, a)) & want}
        if slots:
            yield c, slots


def indexes(s, c, slots):
    """attributes that a method of the class uses to find elements of its lists by name"""
    ct = s.ctors.get(c)
    dicts = []
    for a, v in ct.entries.items():
        for g, x in leaves(v):
            o = ct.heap.get(x) if x.op == "obj" else None
            if o is not None and o.kind == "dict" and a not in dicts:
                dicts.append(a)
    terms = {attr(ME, a): a for a in dicts}
    out = set()
    for k in c.mro:
        if not isinstance(k, ClassInfo):
            continue
        for f in k.methods.values():
            if f.name == "__init__" or f.is_static or f.is_classmethod or f.name.startswith("_") and not f.setter_of:
                continue
            r = s.methods.run(k, f)
            if r.failed:
                continue
            ins = {y for g, a, y in insertions(s, k, r.flat(), r.heap, ME, slots, None)}
            names = {name_of(y, r.heap) for y in ins}
            for g, e in r.flat():
                if e.kind == "setitem" and e.data[0] in terms and e.data[1] in names and any(
                        y in ins for _, y in leaves(e.data[2])):
                    out.add(terms[e.data[0]])
                for y in walk(plain(g, terms)):
                    if y.op == "in" and y.a[1] in terms and y.a[0] in names:
                        out.add(terms[y.a[1]])
    return sorted(out)


def plain(t, idx):
    """guard with get-tests on an index written as membership tests"""
    m = {}
    for y in walk(t):
        if y.op in ("nn", "truthy") and isinstance(y.a[0], T) and y.a[0].op == "mcall" and y.a[0].a[1] == "get" \
                and y.a[0].a[0] in idx and len(y.a[0].a) > 2:
            m[y] = mk("in", y.a[0].a[2], y.a[0].a[0])
        elif y.op in ("nn", "truthy") and isinstance(y.a[0], T) and y.a[0].op == "item" and y.a[0].a[0] in idx:
            m[y] = TRUE              # an index holds elements only
        elif y.op == "in" and isinstance(y.a[1], T) and y.a[1].op == "mcall" and y.a[1].a[1] == "keys":
            m[y] = mk("in", y.a[0], y.a[1].a[0])
    return subst(t, m) if m else t


def scans(h, n):
    """the guard compares the name with the names of elements of a collection"""
    for y in walk(h):
        if y.op == "eq" and n in y.a and any(isinstance(z, T) and any(w.op == "elem" for w in walk(z)) for z in y.a
                                             if z is not n):
            return True
        if y.op in ("truthy", "nn", "in") and not (y.op == "in" and y.a[1].op in ("attr", "obj")) and any(
                w.op in ("call", "gen", "comp", "lam", "mcall") for w in walk(y)) and any(w is n for w in walk(y)):
            return True
    return False


def relevant(r, guards):
    """the guards that share an atom with r"""
    atoms = {z for z in walk(r) if z.op in ATOMS}
    return [g for g in guards if any(z in atoms for z in walk(g))]


def name_of(x, heap):
    o = heap.get(x) if x.op == "obj" else None
    if o is not None and isinstance(o.entries.get("name"), T):
        return o.entries["name"]
    return attr(x, "name")


def judge(s, rep, c, what, where, events, heap, me, slots, idx, entries, imprecise):
    raises = [(i, plain(g, idx)) for i, (g, e) in enumerate(events) if e.kind == "raise"]
    puts = []
    for i, (g, e) in enumerate(events):
        if e.kind == "setitem" and e.data[0] in idx:
            for g2, y in leaves(e.data[2], g):
                puts.append((plain(g2, idx), e.data[0], e.data[1], y))
        if e.kind == "mcall" and e.data[0] in idx and e.data[1] == "setdefault" and len(e.data[2]) == 2:
            puts.append((plain(g, idx), e.data[0], e.data[2][0], e.data[2][1]))
    ins = []
    for g, a, y in insertions(s, c, events, heap, me, slots, entries):
        ins.append((plain(g, idx), a, y))
    merged = {}
    for g, a, y in ins:
        merged[(a, y)] = disj(merged.get((a, y), FALSE), g)
    for (a, y), g in merged.items():
        rep.count("insertions")
        n = name_of(y, heap)
        if not idx:
            rep.skip(f"{what}: {c.name} keeps no name index")
            continue
        # a value of a used name is refused
        ok = [False, False]
        res = [None, None]
        for ix in idx:
            r = conj(g, mk("in", n, ix))
            r = conj(r, *[neg(h) for h in relevant(r, [h for i, h in raises])])
            if r is FALSE:
                ok[0] = True
            res[0] = r
            have = disj(*[h for h, d, k, z in puts if d is ix and k is n and z is y])
            miss = conj(g, neg(have))
            miss = conj(miss, *[neg(h) for h in relevant(miss, [h for i, h in raises])])
            if miss is FALSE:
                ok[1] = True
            res[1] = miss
        for k, txt in ((0, "without refusing a name already in use"), (1, "without recording its name")):
            if ok[k]:
                rep.ok()
            elif imprecise:
                rep.skip(f"{what}: {a} ({imprecise[0]})")
            elif k == 0 and any(scans(h, n) for i, h in raises):
                seen = {b for i, h in raises for z in walk(h) for b in slots if z is attr(me, b)}
                if seen and set(slots) - seen:
                    rep.find(f"unrefused:{what}:{a}", f"{what} looks for the name in {', '.join(sorted(seen))} only, not in "
                             f"{', '.join(sorted(set(slots) - seen))} of {c.name}", where)
                    continue
                rep.skip(f"{what}: {a} is searched for the name")
            else:
                rep.find(f"{'unrefused' if k == 0 else 'unindexed'}:{what}:{a}",
                         f"{what} puts an element into {a} of {c.name} {txt}", where, f"{show(y)[:60]} when {show(res[k])[:200]}")
    for h, d, k, z in puts:
        have = disj(*[g for (a, y), g in merged.items() if y is z])
        miss = conj(h, neg(have))
        miss = conj(miss, *[neg(q) for q in relevant(miss, [q for i, q in raises])])
        if miss is FALSE and k is name_of(z, heap):
            rep.ok()
        elif imprecise:
            rep.skip(f"{what}: index ({imprecise[0]})")
        elif miss is FALSE:
            rep.find(f"key:{what}", f"{what} records an element of {c.name} under {show(k)[:40]}, which is not its name", where)
        else:
            rep.find(f"index-only:{what}", f"{what} records a name in {c.name} without adding the element to its list", where,
                     f"{show(z)[:60]} when {show(miss)[:200]}")


def returned_errors(s, rep, c, f, r, where):
    if r.value is None:
        return
    rep.count("results")
    for g, x in leaves(r.value):
        bad = None
        if x.op in ("call", "xcall") and isinstance(x.a[0], str) and is_exception(s, x.a[0]):
            bad = x.a[0]
        elif x.op == "obj" and x in r.heap and isinstance(r.heap[x].cls, ClassInfo) and is_exception(s, r.heap[x].cls):
            bad = r.heap[x].cls.name
        if bad:
            rep.find(f"returned-error:{f.qual}", f"{f.qual} returns the error {bad} instead of raising it", where,
                     "when " + show(g)[:200])
            return
    rep.ok()


def is_exception(s, x):
    import builtins
    if isinstance(x, ClassInfo):
        return any((b if isinstance(b, str) else getattr(b, "name", "")) in ("Exception", "BaseException", "ValueError",
                                                                             "TypeError", "KeyError", "RuntimeError")
                   for b in list(x.mro))
    o = getattr(builtins, x.split(".")[-1], None)
    return isinstance(o, type) and issubclass(o, BaseException)


def run(s, rep):
    outside = set()
    for c, slots in named(s):
        rep.count("named containers")
        ix = indexes(s, c, slots)
        outside |= set(slots) | set(ix)
        ct = s.ctors.get(c)
        where = f"{c.module.relpath}:{c.node.lineno}"
        if not ct.dead and ct.obj is not None:
            tbl = [x for a in ix for g, x in leaves(ct.entries[a])]
            if through(s, c, ct, slots, rep):
                rep.ok()
            else:
                judge(s, rep, c, c.name, where, list(flat_events(ct.events)), ct.heap, ct.obj, slots, tbl, ct.entries,
                      ct.imprecise)
        for f in c.methods.values():
            if f.name == "__init__" or f.is_static or f.is_classmethod or (f.name.startswith("_") and not f.setter_of):
                continue
            r = s.methods.run(c, f)
            if r.failed:
                rep.skip(f"{f.qual}: {r.failed}")
                continue
            rep.count("methods")
            w = f"{c.module.relpath}:{f.node.lineno}"
            judge(s, rep, c, f.qual, w, r.flat(), r.heap, ME, slots, [attr(ME, a) for a in ix], None, r.imprecise)
            returned_errors(s, rep, c, f, r, w)
            stray(s, rep, c, f, r, slots, ix, w)
    foreign(s, rep, outside)


def through(s, c, ct, slots, rep):
    """the constructor adds elements only by calling methods of the class, which are judged themselves"""
    lists = {x for a in slots for g, x in leaves(ct.entries[a]) if x.op == "obj"}
    n = 0
    for g, e in flat_events(ct.events):
        if e.kind == "listop" and e.data[0] in lists:
            n += 1
            f = e.func
            if f is None or f.name.startswith("_") or f.cls not in c.mro:
                return False
    plain_lists = all(isinstance(ct.heap.get(x).base, T) is False for x in lists if x in ct.heap)
    return n > 0 and plain_lists


KNOWN = {"append", "insert", "extend", "get", "keys", "values", "items", "index", "count", "copy", "setdefault", "add"}


def stray(s, rep, c, f, r, slots, ix, where):
    """removals must touch the list and the index together"""
    took = {}
    for g, e in r.flat():
        if e.kind == "mcall" and isinstance(e.data[0], T) and e.data[0].op == "attr" and e.data[0].a[0] is ME \
                and e.data[1] not in KNOWN:
            a = e.data[0].a[1]
            if a in slots or a in ix:
                took.setdefault(a, []).append(g)
        elif e.kind == "delitem" and isinstance(e.data[0], T) and e.data[0].op == "attr" and e.data[0].a[0] is ME:
            a = e.data[0].a[1]
            if a in slots or a in ix:
                took.setdefault(a, []).append(g)
    if not took:
        return
    if any(a in slots for a in took) and any(a in ix for a in took):
        rep.skip(f"{f.qual}: removes elements")
    elif ix:
        rep.find(f"half-removed:{f.qual}", f"{f.qual} changes {', '.join(took)} of {c.name} without the corresponding "
                 f"{'name index' if any(a in slots for a in took) else 'list'}", where)


def foreign(s, rep, attrs):
    """changes of the lists and indexes from outside their class"""
    import ast
    attrs = {a for a in attrs if a in ("packages",) or a.startswith("_")} | {"packages"}
    owners = {c for c, sl in named(s)}
    for m in s.prog.modules.values() if isinstance(s.prog.modules, dict) else s.prog.modules:
        for n in ast.walk(m.tree):
            hit = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) \
                    and n.func.value.attr in attrs and n.func.attr in ("append", "insert", "extend", "remove", "pop", "clear",
                                                                       "update", "setdefault", "popitem"):
                hit = n.func.value
            elif isinstance(n, (ast.Assign, ast.Delete)):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr in attrs:
                        hit = t.value
            if hit is None or isinstance(hit.value, ast.Name) and hit.value.id == "self":
                continue
            rep.find(f"outside:{m.name}:{ast.unparse(hit)}", f"{m.name} changes {ast.unparse(hit)} directly, past the check "
                     f"for used names", f"{m.relpath}:{n.lineno}")
        rep.count("modules")
