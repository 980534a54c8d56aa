"""
Reading tolerates absent and unknown children: no path of a reader method uses an absent child,
calls a constructor in a way its signature refuses, reads an unassigned variable or raises an
internal error, where only the presence and the kind of the children decide.
"""
from sa.terms import T, walk, show, conj, neg, subst, mk, TRUE, FALSE, is_const
from sa.reader_sum import is_xml

INTERNAL = ("TypeError", "AttributeError", "KeyError", "IndexError", "AssertionError", "UnboundLocalError", "NameError",
            "LookupError")


def leaves(g):
    if g.op in ("and", "or", "not"):
        for x in g.a:
            if isinstance(x, T):
                yield from leaves(x)
    else:
        yield g


def is_text(t):
    return t.op == "attr" and t.a[1] in ("text", "tail") and isinstance(t.a[0], T) and is_xml(t.a[0])


def structural(g):
    """only which children exist, and of which kind, decides; mixed content: which texts exist as well"""
    at = list(leaves(g))
    mixed = any(a.op in ("truthy", "nn") and is_text(a.a[0]) and a.a[0].a[1] == "tail" for a in at)
    for a in at:
        if a.op in ("const", "loop"):
            continue
        if a.op in ("nn", "truthy"):
            x = a.a[0]
            if isinstance(x, T) and is_text(x):
                if mixed:
                    continue
                return False
            if isinstance(x, T) and x.op == "xattr":
                return False
            if isinstance(x, T) and x.op == "dget" and any(y.op == "attr" and y.a[1] == "tag" for y in walk(x.a[1])):
                continue
            if isinstance(x, T) and (is_xml(x) or x.op in ("children", "cmap", "runit", "rdisp", "cmapvals", "obj", "each")):
                continue
            return False
        if a.op == "eq":
            if any(isinstance(x, T) and x.op == "attr" and x.a[1] == "tag" for x in a.a):
                continue
            return False
        return False
    return True


def of_texts(t):
    """a value made from texts and XML attributes alone"""
    if t.op == "attr":
        return is_text(t)
    if t.op == "phi":
        return all(of_texts(x) or is_const(x) for x in t.a[1:])
    if t.op == "call" and t.a[0] in ("xml_to_enum", "str", "int", "float"):
        return all(of_texts(x) or is_const(x) for x in t.a[1:] if isinstance(x, T))
    return t.op == "xattr"


def independent(g, t):
    """presence decides, together with the texts of other children"""
    m = {}
    for a in leaves(g):
        if a.op == "eq" and sum(is_const(x) or x.op == "em" for x in a.a) == 1:
            x = next(x for x in a.a if not (is_const(x) or x.op == "em"))
            if of_texts(x) and not any(y is t for y in walk(x)):
                m[a] = mk("nn", mk("children", "text", str(a.n)))
    return bool(m) and structural(subst(g, m))


def typed(g):
    """the condition when every value that was read has the class it is tested for"""
    m = {}
    for x in walk(g):
        if x.op == "inst" and isinstance(x.a[0], T) and value_read(x.a[0]):
            m[x] = TRUE
        elif x.op == "eq" and any(isinstance(y, T) and y.op in ("type", "call") and "type" in (y.op, y.a[0])
                                  and any(isinstance(z, T) and value_read(z) for z in y.a) for y in x.a):
            m[x] = TRUE
    return subst(g, m) if m else g


def value_read(t):
    return t.op in ("runit", "rdisp") or t.op == "phi" and any(isinstance(x, T) and value_read(x) for x in t.a[1:])


def error_name(t):
    if not isinstance(t, T):
        return None
    if t.op in ("call", "xcall", "new", "ext") and isinstance(t.a[0], str):
        return t.a[0].split(".")[-1]
    if t.op in ("ext",):
        return str(t.a[0]).split(".")[-1]
    return None


def what_of(t):
    """name of an absent value, stable under renaming of variables"""
    for x in walk(t):
        if x.op in ("child", "children") and len(x.a) > 1 and isinstance(x.a[1], str):
            return x.a[1]
        if x.op in ("child", "children") and len(x.a) > 1 and isinstance(x.a[1], T) and is_const(x.a[1]):
            return str(x.a[1].a[0])
        if x.op == "runit":
            return x.a[0].name
    return t.op


def text_of(t):
    """the value depends on the text of an element, not on its presence"""
    if t.op == "phi":
        return any(isinstance(x, T) and text_of(x) for x in t.a[1:])
    return is_text(t) or t.op == "xattr"


def run(s, rep):
    ra = s.reader
    units = list(ra.units.values())
    rep.count("reader units", len(units))
    rep.floor("reader units", len(units), 135)
    for u in units:
        own = u.f.name
        used = 0
        bad = 0
        imp = [x for x in u.imprecise]
        for g, e in u.flat():
            fn = e.func.name if getattr(e, "func", None) else own
            loc = f"reader.py:{e.line}" if e.line else ""
            if e.kind == "needs":
                t, what, c = e.data
                if text_of(t) or (t.op == "runit" and t.a[0].name == "_read_number"):
                    continue
                gg = conj(g, c)
                if gg is FALSE:
                    continue
                if not structural(gg) and not independent(gg, t):
                    rep.count("uses decided by values")
                    continue
                bad += 1
                rep.find(f"absent|{fn}|{what_of(t)}|{what}",
                         f"{fn} uses {what} of a child that may be absent: {show(t)[:80]}", e.loc if hasattr(e, "loc") else loc,
                         show(gg)[:200])
            elif e.kind in ("badkw", "dupkw", "badpos", "missing"):
                f = e.data[0]
                c = e.data[2] if len(e.data) > 2 and isinstance(e.data[2], T) else None
                gg = conj(g, c) if c is not None else g
                if gg is FALSE:
                    continue
                if not structural(gg):
                    rep.count("argument binding decided by values")
                    rep.skip(f"{fn}: {e.kind} {e.data[1]} under {show(gg)[:80]}")
                    continue
                bad += 1
                rep.find(f"{e.kind}|{own}|{f.qual}|{e.data[1]}",
                         f"{own} calls {f.qual} "
                         + {"badkw": "with an argument it does not have", "dupkw": "with one argument twice",
                            "badpos": "with too many arguments", "missing": "without a mandatory argument"}[e.kind]
                         + f" ({e.data[1]})", loc, show(gg)[:200])
            elif e.kind == "unbound":
                gg = conj(g, e.data[1])
                if gg is FALSE:
                    continue
                if not structural(gg):
                    rep.skip(f"{fn}: variable {e.data[0]} under {show(gg)[:80]}")
                    continue
                bad += 1
                rep.find(f"unbound|{fn}|{e.data[0]}", f"{fn} reads variable {e.data[0]} where it is not assigned", loc, show(gg)[:200])
            elif e.kind == "noattr":
                bad += 1
                rep.find(f"noattr|{fn}|{e.data[1]}", f"{fn} uses attribute {e.data[1]} that does not exist", loc, show(g)[:200])
            elif e.kind == "keymiss":
                gg = conj(g, e.data[2]) if len(e.data) > 2 and isinstance(e.data[2], T) else g
                if gg is FALSE or not structural(gg):
                    continue
                bad += 1
                rep.find(f"keymiss|{fn}|{show(e.data[1])[:40]}", f"{fn} looks up a key that may be missing", loc, show(gg)[:200])
            elif e.kind == "raise":
                n = error_name(e.data[0])
                if n is None or n not in INTERNAL:
                    rep.count("refusals")
                    continue
                g = typed(g)
                if g is FALSE:
                    continue
                if not structural(g):
                    rep.count("errors decided by values")
                    continue
                bad += 1
                rep.find(f"raise|{own}|{fn}|{n}|{tags(g)}", f"{own} ends in {n} raised by {fn}", loc, show(g)[:200])
            elif e.kind == "assert":
                c = e.data[0]
                gg = conj(g, neg(c))
                if gg is FALSE:
                    continue
                if not structural(gg):
                    continue
                at = [a for a in leaves(neg(c))]
                if any(x.op == "attr" and x.a[1] == "tag" for a in at for x in walk(a)):
                    rep.count("assertions about the element itself")   # decided at the caller
                    continue
                bad += 1
                rep.find(f"assert|{own}|{fn}", f"{own} ends in an assertion of {fn}", loc, show(gg)[:200])
        used = u.ip.uses_checked if hasattr(u, "ip") else 0
        rep.count("uses of possibly absent values", used)
        for x in imp[:3]:
            rep.skip(f"{u.name}: {str(x)[:100]}")
        rep.ok(used + 1)
    rep.floor("uses of possibly absent values", rep.counts.get("uses of possibly absent values", 0), 300)


def tags(g):
    """the kinds of children a guard is about"""
    res = set()
    for a in leaves(g):
        if a.op == "eq":
            res |= {str(x.a[0]) for x in a.a if isinstance(x, T) and is_const(x)}
    return ",".join(sorted(res))[:60]
