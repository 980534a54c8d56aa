"""A refused value leaves the object unchanged: no store to the receiver precedes an explicit error."""
from sa.terms import T, mk, TRUE, FALSE, conj, neg, walk, show, subst, is_cond, is_const, cval, BOOL_OPS
from sa.methods import ME
from sa.interp import IfEv, LoopEv
from sa.bdd import MAX_ATOMS

MODULES = ("autosar.xml.element", "autosar.xml.document", "autosar.xml.base", "autosar.xml.workspace",
           "autosar.xml.reference", "autosar.xml.template", "autosar.model.element")
OPERATIONS = ("append", "extend", "add", "insert", "set", "update", "create", "remove", "delete", "clear")
SEVERAL_STEPS = {"create_package_map"}   # a creation of several packages along several paths
CHANGES = {"append", "insert", "extend", "remove", "pop", "clear", "update", "setdefault", "add", "discard", "popitem",
           "sort", "reverse", "move_to_end"}


def arms(t):
    if isinstance(t, T) and t.op == "phi":
        return arms(t.a[1]) + arms(t.a[2])
    return [t]


def doubts(r):
    """constructs the summary is not exact about; a store through a merged reference reports the references"""
    return [x for x in r.imprecise if x[0] not in ("store through merged reference", "setattr with computed name")]


def rooted(t):
    """the value is the receiver or a collection it holds"""
    if t is ME:
        return True
    return isinstance(t, T) and t.op == "attr" and t.a[0] is ME


def given(t):
    """the value is an argument or an element of one"""
    while isinstance(t, T) and t.op in ("elem", "item", "idx"):
        t = t.a[0]
    return isinstance(t, T) and t.op == "sym" and str(t.a[0]).startswith("p:")


def target(e):
    """what of the receiver or of an argument an event changes, or None"""
    if e.kind == "setattr" and any(given(x) for x in arms(e.data[0])):
        return f"{e.data[1]} of the argument"
    if e.kind == "setattr" and ME in arms(e.data[0]):
        return e.data[1] if isinstance(e.data[1], str) else "?"
    if e.kind == "mcall" and isinstance(e.data[0], T) and e.data[0] is not ME and rooted(e.data[0]) and e.data[1] in CHANGES:
        return e.data[0].a[1]
    if e.kind == "setattrdyn" and ME in arms(e.data[0]):
        return "the named attribute"
    if e.kind in ("setitem", "delitem") and rooted(e.data[0]) and e.data[0] is not ME:
        return e.data[0].a[1]
    if e.kind == "delattr" and e.data[0] is ME:
        return str(e.data[1])
    return None


def other_round(g, src):
    """the guard in another iteration of the loop over src"""
    el = mk("elem", src)
    m = {}
    for y in walk(g):
        if y.op in BOOL_OPS and y.op not in ("and", "or", "not", "loop") and any(z is el for z in walk(y)):
            m[y] = mk("truthy", mk("call", "earlier", y))
    return subst(g, m)


_keyed = {}


def keyed(t):
    """loops over the entries, the keys or the values of a dictionary as loops over its keys"""
    if not isinstance(t, T):
        return t
    r = _keyed.get(t)
    if r is None:
        a = tuple(keyed(x) if isinstance(x, T) else x for x in t.a)
        r = mk(t.op, *a) if any(x is not y for x, y in zip(a, t.a)) else t
        if r.op == "mcall" and len(r.a) == 2 and r.a[1] in ("items", "keys", "values"):
            r = mk("entries", r.a[0], r.a[1])
        elif r.op == "loop" and r.a[0].op == "entries":
            r = mk("loop", r.a[0].a[0])
        elif r.op == "elem" and r.a[0].op == "entries" and r.a[0].a[1] != "items":
            k = mk("elem", r.a[0].a[0])
            r = k if r.a[0].a[1] == "keys" else mk("item", r.a[0].a[0], k)
        elif r.op == "item" and r.a[0].op == "elem" and r.a[0].a[0].op == "entries" and r.a[0].a[0].a[1] == "items" and is_const(r.a[1]):
            k = mk("elem", r.a[0].a[0].a[0])
            r = k if cval(r.a[1]) == 0 else mk("item", r.a[0].a[0].a[0], k)
        _keyed[t] = r
    return r


def source(t):
    t = keyed(t)
    return t.a[0] if t.op == "entries" else t


def flat(evs, guard=TRUE, loops=(), sides=()):
    """(guard, event, enclosing loops, sides taken at branches) in program order"""
    for e in evs:
        if isinstance(e, IfEv):
            yield from flat(e.a, conj(guard, e.cond), loops, sides + ((id(e), True),))
            yield from flat(e.b, conj(guard, neg(e.cond)), loops, sides + ((id(e), False),))
        elif isinstance(e, LoopEv):
            yield from flat(e.body, conj(guard, mk("loop", e.it)), loops + ((id(e), e.it),), sides)
        else:
            yield guard, e, loops, sides


def refuses(e):
    return e.kind == "raise" or e.kind == "assert" and isinstance(e.data[0], T) and is_cond(e.data[0])


def apart(x, y):
    """the two events are on different sides of a branch"""
    d = dict(x)
    return any(d.get(k, v) is not v for k, v in y)


def method(s, rep, c, f):
    r = s.methods.run(c, f)
    where = f"{c.module.relpath}:{f.node.lineno}"
    if r.failed:
        rep.skip(f"{f.qual}: {r.failed}")
        return
    rep.count("methods")
    ev = [(keyed(g), e, tuple((i, source(x)) for i, x in ls), sd) for g, e, ls, sd in flat(r.events)]
    pcs = [set(e.pc or ()) for g, e, ls, sd in ev]
    excluded = [{neg(p) for p in ps} for ps in pcs]
    raises = [(i, conj(g, neg(keyed(e.data[0]))) if e.kind == "assert" else g, e, ls, sd) for i, (g, e, ls, sd) in enumerate(ev) if refuses(e)]
    if not raises:
        return
    stores = [(i, g, target(e), ls, sd) for i, (g, e, ls, sd) in enumerate(ev) if target(e) is not None]
    if f.name.startswith("create"):
        # what is put into the new object before that is refused belongs to the caller's lost construction
        stores = [x for x in stores if not x[2].endswith(" of the argument")]
    if not stores:
        return
    rep.count("methods that store and refuse")
    bad = {}
    vague = {}
    for i, g, a, ls, sd in stores:
        for j, h, x, lx, sx in raises:
            rep.count("pairs")
            hit = FALSE
            if j > i and ("changed", a) not in bad and not apart(sd, sx) and not pcs[i] & excluded[j]:
                hit = conj(g, h)
                # errors raised in between exclude the path
                if hit is not FALSE:
                    hit = conj(hit, *[neg(q) for k, q, _, _, sk in raises if k < i and not apart(sk, sd) and shares(q, hit)])
                if hit is not FALSE and len(atoms(g) | atoms(h)) > MAX_ATOMS:
                    vague[a] = (hit, x)   # too many conditions to tell whether they exclude each other
                elif hit is not FALSE:
                    bad["changed", a] = (hit, x)
            other = FALSE
            if ("changed-before", a) not in bad:
                for src in [y[1] for y in ls if y in lx]:
                    other = conj(other_round(g, src), h)
                    # refusals of loops completed before hold off every element
                    done = [q for k, q, _, lk, sk in raises if k < i and not set(lk) & set(ls) and not apart(sk, sd)]
                    if other is not FALSE:
                        other = conj(other, *[neg(q) for q in done if shares(q, other)])
                    if other is not FALSE:
                        other = conj(other, *[neg(q) for q in (other_round(q, src) for q in done) if shares(q, other)])
                    if other is not FALSE:
                        bad["changed-before", a] = (other, x)
                        break
            if hit is FALSE and other is FALSE:
                rep.ok()
    for a, (hit, x) in sorted(vague.items()):
        if not any(b == a for _, b in bad):
            rep.skip(f"{f.qual}: {a} changed before {show(x.data[0])[:60] if isinstance(x.data[0], T) else ''}")
    for (kind, a), (hit, x) in sorted(bad.items(), key=lambda z: z[0]):
        if doubts(r):
            rep.skip(f"{f.qual}: {a} ({doubts(r)[0]})")
            continue
        what = "an element of its argument" if kind == "changed-before" else "its argument"
        rep.find(f"{kind}:{f.qual}:{a}", f"{f.qual} has already changed {a} when it refuses {what}", where,
                 f"{show(x.data[0])[:80] if x.data and isinstance(x.data[0], T) else ''} when {show(hit)[:200]}")


_atoms = {}


def atoms(t):
    """the atomic conditions of a guard"""
    r = _atoms.get(t)
    if r is None:
        if t.op in ("and", "or", "not"):
            r = frozenset().union(*[atoms(x) for x in t.a])
        else:
            r = frozenset([t])
        _atoms[t] = r
    return r


def shares(q, hit):
    return not atoms(q).isdisjoint(atoms(hit))


def run(s, rep):
    for c in s.prog.classes:
        if c.module.name not in MODULES or c.is_enum:
            continue
        for f in list(c.methods.values()) + list(getattr(c, "setters", {}).values()):
            if f.is_static or f.is_classmethod or f.name.startswith("__"):
                continue
            if not f.setter_of and (not f.name.startswith(OPERATIONS) or f.name in SEVERAL_STEPS):
                continue
            method(s, rep, c, f)
