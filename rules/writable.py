"""
Writing never fails because optional content is absent: no path of a writer method uses an absent
attribute, hands it to a method that needs it, or ends in a failed assertion or an error, where only
the presence of optional content decides.
"""
from sa.terms import T, walk, show, conj, disj, neg, mk, attr, subst, is_cond, TRUE, FALSE, NONE, is_const, cval
from sa.program import ClassInfo
from sa.interp import flat_events
from sa.compose import ELEM
from .tolerant import leaves, error_name


class Presence:
    """conditions of one unit, resolved with the declared types of the attributes"""

    def __init__(self, s, u):
        self.s = s
        self.u = u
        self.ip = u.ip
        self.st = u.final
        self.classes = s.writer.classes_for(u.f)

    def hints(self, x):
        return self.ip.hint_types(x, self.st) or set()

    def matches(self, h, ty):
        """the declared type h is an instance of ty: True, False or None (unknown)"""
        if ty.op == "cls":
            if isinstance(h, ClassInfo):
                if h.is_sub(ty.a[0]):
                    return True
                return None if ty.a[0].is_sub(h) else False
            return None if h in ("any", "object") else False
        if ty.op == "ext":
            n = ty.a[0].split(".")[-1]
            if isinstance(h, ClassInfo):
                return None
            k = h[0] if isinstance(h, tuple) else h
            if k in ("any", "object"):
                return None
            if k == n or n == "int" and k == "bool":
                return True
            return False
        return None

    def resolve(self, g):
        m = {}
        for x in walk(g):
            if x.op == "inst" and isinstance(x.a[0], T):
                y, ty = x.a
                if y.op == "call" and y.a[0] in ("enum_to_xml", "str"):
                    m[x] = TRUE
                    continue
                if y is ELEM:
                    if self.classes and all(self.matches(c, ty) for c in self.classes):
                        m[x] = TRUE
                    continue
                if y is NONE:
                    m[x] = FALSE
                    continue
                h = self.hints(y)
                r = {self.matches(k, ty) for k in h if k != "None"}
                if r == {True}:
                    m[x] = mk("nn", y) if "None" in h else TRUE
                elif r == {False}:
                    m[x] = FALSE
            elif x.op == "nn" and isinstance(x.a[0], T):
                y = x.a[0]
                if y is ELEM or y.op in ("attr", "elem") and "None" not in self.hints(y) and "any" not in self.hints(y):
                    m[x] = TRUE
        g = subst(g, m) if m else g
        m = {x: y for x in walk(g) for y in [self.empty(x)] if y is not None}
        return subst(g, m) if m else g

    def empty(self, x):
        """the test for an empty object, spelled out for objects with few attributes"""
        if x.op != "truthy" or x.a[0].op != "isempty" or x.a[0].a[0] is not ELEM or len(self.classes) != 1:
            return None
        ign = {cval(v) for v in x.a[0].a[1].a if is_const(v)}
        names = [a for a in self.s.ctors.get(next(iter(self.classes))).entries if a not in ign and a != "parent"]
        if not 0 < len(names) <= 5:
            return None
        out = []
        for a in names:
            t = attr(ELEM, a)
            h = self.hints(t)
            out.append(neg(mk("nn", t)) if "None" in h else neg(mk("truthy", t)) if any(
                isinstance(k, tuple) or k in ("list", "str") for k in h) else FALSE)
        return conj(*out)

    def structural(self, g):
        for a in leaves(g):
            if a in (TRUE, FALSE) or a.op == "loop":
                continue
            if a.op in ("nn", "truthy") and isinstance(a.a[0], T) and (rooted(a.a[0]) or a.a[0].op == "isempty"):
                continue
            if a.op == "eq" and sum(is_const(x) or x.op == "em" for x in a.a) == 1 and all(
                    is_const(x) or x.op == "em" or rooted(x) and x.op == "attr" and x.a[0] is ELEM for x in a.a):
                continue                # a plain value of another attribute
            return False
        return True

    def verdict(self, g):
        """False: cannot happen; True: presence alone decides; None: values decide"""
        g = self.resolve(g)
        if g is FALSE:
            return False, g
        if not self.structural(g):
            return None, g
        return True, g


def rooted(t):
    while t.op in ("attr", "elem") and isinstance(t.a[0], T):
        t = t.a[0]
    return t is ELEM


def absent(ip, st, x):
    return neg(ip.make_nn(x, st)) if x is not NONE else TRUE


def needs_object(u, memo):
    """the unit fails when it is given nothing"""
    k = id(u)
    if k in memo:
        return memo[k]
    memo[k] = True
    m = {}
    evs = list(flat_events(u.events))
    for g, e in evs:
        for t in (g, *[x for x in e.data if isinstance(x, T)]):
            for x in walk(t):
                if x.op in ("nn", "truthy", "inst") and x.a[0] is ELEM:
                    m[x] = FALSE
    res = False
    for g, e in evs:
        q = subst(g, m) if m else g
        if q is FALSE:
            continue
        if any(x.op == "attr" and x.a[0] is ELEM for x in walk(q)):
            res = True
            break
        if q is not TRUE:
            continue
        if e.kind == "assert" and subst(e.data[0], m) is FALSE or e.kind == "raise":
            res = True
        elif any(isinstance(t, T) and any(x.op == "attr" and x.a[0] is ELEM for x in walk(t)) for d in e.data
                 for t in (d if isinstance(d, tuple) else (d,))):
            res = True
        if res:
            break
    memo[k] = res
    return res


def name_of(t):
    for x in walk(t):
        if x.op == "attr" and rooted(x):
            return x.a[1]
    return show(t)[:40]


def run(s, rep):
    wa = s.writer
    memo = {}
    units = list(wa.units.values())
    rep.count("writer units", len(units))
    rep.floor("writer units", len(units), 80)
    seen = set()

    def report(kind, u, what, text, e, g):
        key = f"{kind}|{u.f.name}|{what}"
        if key in seen:
            return
        seen.add(key)
        rep.find(key, text, e.loc if hasattr(e, "loc") else f"writer.py:{e.line}", show(g)[:200])

    for u in units:
        p = Presence(s, u)
        rep.ok(u.ip.uses_checked)
        rep.count("uses of possibly absent values", u.ip.uses_checked)
        for g, e in flat_events(u.events):
            if e.kind == "needs":
                t, what, c = e.data
                ok, q = p.verdict(conj(g, c))
                if ok:
                    report("absent", u, f"{name_of(t)}|{what}", f"{u.f.name} uses {what} of {show(t)[:80]}, which may be absent", e, q)
            elif e.kind == "unit":
                (f, cargs), x = e.data
                if not isinstance(x, T) or x is ELEM:
                    continue
                v = wa.unit(f, cargs)
                rep.count("nested objects")
                if not ("None" in p.hints(x) or x is NONE or x.op == "phi") or not needs_object(v, memo):
                    rep.ok()
                    continue
                ok, q = p.verdict(conj(g, absent(u.ip, p.st, x)))
                if ok:
                    report("nested", u, f"{name_of(x)}|{f.name}", f"{u.f.name} calls {f.name} for {show(x)[:80]}, which may be absent", e, q)
                else:
                    rep.ok()
            elif e.kind == "dispatch":
                for x in e.data[1]:
                    if isinstance(x, T) and x is not ELEM and "None" in p.hints(x):
                        ok, q = p.verdict(conj(g, absent(u.ip, p.st, x)))
                        if ok:
                            report("dispatch", u, name_of(x), f"{u.f.name} looks for a writer of {show(x)[:80]}, which may be absent", e, q)
                            continue
                    rep.ok()
            elif e.kind == "assert":
                c = e.data[0]
                if c is TRUE:
                    rep.ok()
                    continue
                ok, q = p.verdict(conj(g, neg(c)))
                if ok:
                    report("assert", u, name_of(c), f"{u.f.name} ends in a failed assertion: {show(c)[:100]}", e, q)
                elif ok is None:
                    rep.count("assertions about values")
                else:
                    rep.ok()
            elif e.kind == "raise":
                ok, q = p.verdict(g)
                if ok:
                    n = error_name(e.data[0])
                    report("raise", u, f"{n}|{name_of(q)}", f"{u.f.name} ends in {n} when content is absent", e, q)
                elif ok is None:
                    rep.count("refusals of values")
                else:
                    rep.ok()
            elif e.kind == "unbound":
                ok, q = p.verdict(conj(g, e.data[1]))
                if ok:
                    report("unbound", u, e.data[0], f"{u.f.name} reads variable {e.data[0]} where it is not assigned", e, q)
        for x in u.imprecise[:3]:
            rep.skip(f"{u.name}: {str(x)[:100]}")
    rep.floor("uses of possibly absent values", rep.counts.get("uses of possibly absent values", 0), 60)
