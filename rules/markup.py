"""
Well-formedness of the emitted markup (typestate of the open elements) and
escaping of model text (taint from attributes to the output stream).
"""
import re
from sa.terms import T, conj, is_const, cval, show, walk, FALSE
from sa.writer_sum import WUnit, El, Ws, SELF
from sa.program import ClassInfo

NAME = re.compile(r"^[A-Za-z_:][A-Za-z0-9_:.\-]*$")


def entries(s):
    """units of the methods that open the output stream"""
    wa = s.writer
    if not hasattr(wa, "entry_units"):
        openers = openers_of(wa)
        res = []
        for name, f in sorted(wa.methods().items()):
            if name.startswith("_") or f.qual in openers.get("direct", ()):
                continue
            if reaches(wa, f, openers["all"]):
                u = WUnit(wa, f, ())
                u.analyse()
                res.append(u)
        wa.entry_units = res
    return wa.entry_units


def openers_of(wa):
    import ast
    direct = set()
    for f in wa.all_methods():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and ast.unparse(n.func).split(".")[-1] in wa.SINKS:
                direct.add(f.name)
    return {"all": direct}


def reaches(wa, f, names, seen=None):
    import ast
    seen = set() if seen is None else seen
    if f.name in names:
        return True
    if f in seen:
        return False
    seen.add(f)
    ms = wa.methods()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                and n.func.value.id == "self" and n.func.attr in ms:
            if reaches(wa, ms[n.func.attr], names, seen):
                return True
    return False


def all_units(s):
    yield from s.writer.units.values()
    yield from entries(s)


def balance(s, rep):
    wa = s.writer
    n = 0
    for u in all_units(s):
        n += 1
        bad = False
        for p in u.problems:
            if p.rule == "call":
                continue
            rep.find(f"{p.rule}:{u.f.qual}", f"{u.f.qual}: {p.what}", p.loc)
            bad = True
        for why, fn, line in u.imprecise:
            rep.skip(f"{u.name}: {why} in {fn}:{line}")
            bad = True
        for node in u.all_nodes():
            if isinstance(node, El):
                bad |= names(rep, u, node)
        if not bad:
            rep.ok()
            rep.sample(f"{u.name}: balanced on every path")
    # one root element
    for u in entries(s):
        roots(rep, u)
    heads = {v.a[1] for t in wa.tables for v in wa.table_entries(t).values() if v.op == "bound"}
    for u in wa.units.values():
        if u.f in heads:
            roots(rep, u)
    rep.floor("writer units", n, 160)
    rep.floor("entry points", len(entries(s)), 2)


def names(rep, u, node):
    bad = False
    tag = node.tag
    if isinstance(tag, str) and not NAME.match(tag):
        rep.find(f"name:{u.f.qual}:{tag}", f"{u.f.qual}: <{tag}> is not an XML name", node.loc)
        bad = True
    seen = []
    for g, k, v in node.attrs:
        if isinstance(k, T) and is_const(k):
            k = cval(k)
        if k is None or isinstance(k, T):
            continue
        if not NAME.match(k):
            rep.find(f"name:{u.f.qual}:{k}", f"{u.f.qual}: attribute name {k!r} is not an XML name", node.loc)
            bad = True
        for g2, k2 in seen:
            if k2 == k and conj(g, g2, node.guard) is not FALSE:
                rep.find(f"dupattr:{u.f.qual}:{k}", f"{u.f.qual}: attribute {k} can appear twice in <{node.tagname}>",
                         node.loc, show(conj(g, g2)))
                bad = True
        seen.append((g, k))
    return bad


def roots(rep, u):
    rs = [r for r in u.roots if not isinstance(r, Ws)]
    for i, a in enumerate(rs):
        ga = a.guard
        if any(y.op == "loop" for y in walk(ga)):
            rep.skip(f"{u.name}: root element emitted in a loop")
            return
        for b in rs[i + 1:]:
            if conj(ga, b.guard) is not FALSE:
                rep.find(f"roots:{u.f.qual}", f"{u.f.qual} can write two elements side by side: {label(a)} and {label(b)}",
                         getattr(a, "loc", u.f.where), show(conj(ga, b.guard)))
                return
    rep.ok()


def label(n):
    return f"<{n.tagname}>" if isinstance(n, El) else repr(n)[:80]


# --------------------------------------------------------------------- escaping
SAFE_CALLS = {"enum_to_xml", "int", "float", "len", "hex", "oct", "bin", "round", "abs", "decimal.Decimal", "ord"}
NUMERIC = {"int", "float", "bool"}
NEED = {"content": set("&<"), "attrval": set("&<\"")}


def safe(u, t, need, in_quotes=False):
    """True: cannot carry markup characters; False: can; None: unknown"""
    if is_const(t):
        return True
    if t.op == "phi":
        return both(safe(u, t.a[1], need, in_quotes), safe(u, t.a[2], need, in_quotes))
    if t.op in ("fstr", "bin"):
        r = True
        for x in t.a:
            if isinstance(x, T):
                r = both(r, safe(u, x, need, in_quotes))
        return r
    if t.op == "esc":
        chars, quoted, x = t.a
        if need - set(chars):
            return safe(u, x, need - set(chars), in_quotes)
        return True
    if t.op == "fmt":
        spec = t.a[-1] if isinstance(t.a[-1], str) else ""
        if spec[-1:] and spec[-1] in "dxXobeEfFgGn%c":
            return True
        return safe(u, t.a[0], need, in_quotes)
    if t.op == "call":
        if t.a[0] in SAFE_CALLS:
            return True
        if t.a[0] in ("str", "repr", "ascii", "format"):
            return safe(u, t.a[1], need, in_quotes) if len(t.a) > 1 else True
        return None
    if t.op == "mcall":
        if t.a[1] in ("upper", "lower", "strip", "rstrip", "lstrip", "replace", "title", "expandtabs", "ljust", "rjust",
                      "center", "zfill", "normalize", "to_integral_value", "quantize"):
            return safe(u, t.a[0], need, in_quotes)
        return None
    if t.op == "join":
        r = True
        for x in t.a:
            if isinstance(x, T):
                r = both(r, safe(u, x.a[1] if x.op == "gi" else x, need, in_quotes))
        return r
    if t.op in ("attr", "elem", "sym", "item", "getitem"):
        ip = u.ip
        h = ip.certain_types(t, u.final) or ip.hint_types(t, u.final)
        if h and "any" not in h:
            h = set(h) - {"None"}
            if h and all(x in NUMERIC for x in h):
                return True
            if h and all(isinstance(x, ClassInfo) and x.is_enum for x in h):
                return True
            if h and all(isinstance(x, ClassInfo) for x in h):
                return None
        return False
    return None


def both(a, b):
    if a is False or b is False:
        return False
    if a is None or b is None:
        return None
    return True


def escaping(s, rep):
    n = 0
    for u in all_units(s):
        for mode, t, buf, guard, loc in u.sinks:
            if u.wa.is_ws(t) or is_const(t):
                continue
            n += 1
            key = None
            if mode == "content":
                r = safe(u, t, NEED["content"])
                key = "text"
            elif mode == "attrval":
                r = safe(u, t, NEED["attrval"])
                key = "attribute"
            elif mode == "attrs" and buf.strip().endswith("="):
                r = True
                for leaf in leaves(t):
                    if leaf.op == "esc" and leaf.a[1]:
                        continue
                    q = safe(u, leaf, NEED["attrval"])
                    r = both(r, q if q is not True else None)
                key = "attribute"
            elif mode in ("tag", "attrs", "attrname-dyn"):
                if t.op == "sym" or all(leaf.op == "sym" or is_const(leaf) for leaf in leaves(t)):
                    continue           # tag chosen by the caller of the writer
                if mode == "attrs" and t.op == "join":
                    r = safe(u, t, NEED["attrval"])
                    r = None if r is True else r
                else:
                    r = safe(u, t, set("<> \"'&"))
                    r = None if r is not True and not from_model(t, u) else r
                key = "name"
            else:
                continue
            src = source(t)
            if r is True:
                rep.ok()
                rep.sample(f"{u.name}: {key} {show(t)[:80]}")
            elif r is None:
                rep.skip(f"{u.name}: {key} {show(t)[:120]}")
            else:
                rep.find(f"raw-{key}:{u.f.qual}:{src}", f"{u.f.qual} writes {src} as {key} without escaping", loc, show(t)[:300])
    rep.floor("values written", n, 350)


def from_model(t, u):
    return u.subject is not None and any(x is u.subject for x in walk(t))


def leaves(t):
    if t.op == "phi":
        yield from leaves(t.a[1])
        yield from leaves(t.a[2])
    else:
        yield t


def source(t):
    for x in walk(t):
        if x.op == "attr":
            return show(x)
    return show(t)[:60]
