"""
Mixed content: the parts a writer emits in one loop, texts and elements, are all read back in order.

The writer emits text 0, then element 1, text 1, element 2, ...; the reader must add the text before the
first child, and for every child first the object read from it and then the text that follows it.
"""
from sa.terms import T, walk, show, subst, conj, TRUE, FALSE, NONE, is_const, cval
from sa.writer_sum import El, Txt, Ws, UnitCall
from sa.pairing import unit_tags
from sa.program import ClassInfo
from sa.reader_sum import is_xml
from .dispatch import class_of

LOSSY = ("strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "casefold", "swapcase")


def mixed_loops(wu):
    """[(attribute term, [child nodes])] of the loops that emit texts and elements"""
    res = []
    nodes = [n for root in wu.roots if isinstance(root, El) for n in root.children]
    for t in nodes:
        if not isinstance(t, Txt):
            continue
        for lp in {x for x in walk(t.guard) if x.op == "loop"}:
            src = lp.a[0]
            if not (src.op == "attr" and src.a[0] is wu.subject) or not any(x is src for x in walk(t.term)):
                continue
            kids = [n for n in nodes if isinstance(n, (El, UnitCall)) and any(x is lp for x in walk(n.guard))]
            if kids and not any(src is r[0] for r in res):
                res.append((src, kids))
    return res


def kid_kinds(s, n):
    """(tag, classes) of a child node"""
    if isinstance(n, UnitCall):
        u = s.writer.unit(*n.key)
        tags = {cval(t) if isinstance(t, T) and is_const(t) else t for t in unit_tags(u)}
        cls = {c for c in s.writer.classes_for(u.f)}
        return tags, cls
    cls = {class_of(x.a[1]) for x in walk(n.guard) if x.op == "inst"} - {None}
    return {cval(n.tag) if isinstance(n.tag, T) and is_const(n.tag) else n.tag}, cls


def for_tag(g, tag):
    """the guard when the tag of the current child is the given one"""
    m = {}
    for x in walk(g):
        if x.op == "eq":
            c = [y for y in x.a if isinstance(y, T) and is_const(y)]
            t = [y for y in x.a if isinstance(y, T) and y.op == "attr" and y.a[1] == "tag"]
            if c and t and t[0].a[0].op in ("each", "elem"):
                m[x] = TRUE if cval(c[0]) == tag else FALSE
        elif x.op == "loop":
            m[x] = TRUE
    return subst(g, m) if m else g


def text_guard(g, v):
    """the value is added whenever it is not empty"""
    m = {x: TRUE for x in walk(g) if x.op in ("truthy", "nn") and x.a[0] is v}
    for x in walk(g):
        if x.op == "loop":
            m[x] = TRUE
    return subst(g, m) if m else g


def run(s, rep):
    """returns the (class, attribute) pairs it decided"""
    done = set()
    n = 0
    for key, r in s.composer.results.items():
        wu, ru, tag = key
        for src, kids in mixed_loops(wu):
            a = src.a[1]
            spaces(s, rep, wu, kids, a)
            for g, cls, ent, leaf in ru.objects():
                p = ent.get(a)
                o = ru.heap.get(p) if isinstance(p, T) else None
                name = f"{cls.name}.{a}"
                if o is None or o.kind not in ("list", "tuplelist") or o.base is not None:
                    continue
                n += 1
                if one(s, rep, name, wu, ru, tag, kids, o.items):
                    done.add((r, cls, a))
    rep.count("mixed contents", n)
    plain_text(s, rep)
    return done


def plain_text(s, rep):
    """an element that holds only text holds nothing else"""
    seen = set()
    for u in s.writer.units.values():
        mixed = {id(k) for _, ks in mixed_loops(u) for k in ks}
        for n in u.all_nodes():
            if not isinstance(n, El) or any(isinstance(k, (El, UnitCall)) for k in n.children) or any(id(k) in mixed for k in n.children):
                continue
            txt = [k for k in n.children if isinstance(k, Txt)]
            if not txt:
                continue
            pad = [w for w in n.children if isinstance(w, Ws) and any(conj(w.guard, k.guard) is not FALSE for k in txt)]
            if not pad:
                rep.ok()
            elif (u.f, n.tag) not in seen:
                seen.add((u.f, n.tag))
                rep.find(f"text-space:{u.f.name}:{show(n.tag) if isinstance(n.tag, T) else n.tag}",
                         f"line breaks or indentation are written around the text of <{show(n.tag) if isinstance(n.tag, T) else n.tag}>",
                         pad[0].loc)


def spaces(s, rep, wu, kids, a):
    """white space between the parts would become part of the text"""
    for root in wu.roots:
        for n in root.children if isinstance(root, El) else ():
            if isinstance(n, Ws):
                rep.find(f"mixed-space:{wu.f.name}:{a}", f"line breaks or indentation are written between the parts of {a}", n.loc)
                return
    for k in kids:
        if isinstance(k, UnitCall):
            u = s.writer.unit(*k.key)
            if any(isinstance(n, Ws) for n in u.roots):
                rep.find(f"mixed-space:{wu.f.name}:{u.f.name}",
                         f"a line break is written before or after the element of {u.f.name} inside the text of {a}", k.loc)
                continue
        rep.ok()


def one(s, rep, name, wu, ru, tag, kids, items):
    where = f"{wu.f.where} -> {ru.f.where}"
    where_r = f"<{tag}> as read by {ru.f.name}"
    loops = [any(x.op == "loop" for x in walk(g)) for g, v in items]
    first = [i for i, (g, v) in enumerate(items) if not loops[i]]
    body = [i for i, x in enumerate(loops) if x]
    sources = {x.a[0] for i in body for x in walk(items[i][0]) if x.op == "loop"}
    if len(sources) != 1 or next(iter(sources)).op != "children":
        return False
    # text before the first child
    lead = [i for i in first if is_text(items[i][1], "text")]
    if len(lead) != len(first):
        return False
    if not lead or text_guard(items[lead[0]][0], items[lead[0]][1]) is FALSE:
        rep.find(f"mixed-text:{name}", f"text before the first child of {where_r} is lost", where)
    elif text_guard(items[lead[0]][0], items[lead[0]][1]) is not TRUE:
        return False
    elif len(lead) > 1 or body and lead[0] > body[0]:
        rep.find(f"mixed-order:{name}", f"the text of {where_r} is not kept at its place", where)
    else:
        rep.ok()
    for k in kids:
        tags, classes = kid_kinds(s, k)
        for t in tags:
            if not isinstance(t, str):
                rep.skip(f"{name}: tag of a child")
                continue
            hit = []
            for i in body:
                g = for_tag(items[i][0], t)
                if g is FALSE:
                    continue
                v = items[i][1]
                for x in [y for y in walk(g) if is_text(y, "tail") or is_text(y, "text")]:
                    g = text_guard(g, x)
                if g is FALSE:
                    continue
                hit.append((i, g, v))
            if any(g is not TRUE for _, g, _ in hit):
                rep.skip(f"{name}: children <{t}>: {show(hit[0][1])[:80]}")
                continue
            elems = [(i, v) for i, g, v in hit if v.op == "runit"]
            tails = [(i, v) for i, g, v in hit if is_text(v, "tail")]
            other = [v for i, g, v in hit if v.op != "runit" and not is_text(v, "tail")]
            unclear = [v for v in other if any(is_text(x, "tail") for x in walk(v)) and not lossy(v)]
            if unclear:
                rep.skip(f"{name}: text after <{t}>: {show(unclear[0])[:80]}")
                continue
            if other:
                rep.find(f"mixed-part:{name}:{t}", f"{where_r} also takes {show(other[0])[:60]} for every <{t}>", where)
                continue
            got = set()
            for i, v in elems:
                got |= {c for c in s.reader.result_classes(v.a[0], v.a[1]) if isinstance(c, ClassInfo)}
            if len(elems) != 1:
                rep.find(f"mixed-child:{name}:{t}", f"<{t}> inside {where_r} is "
                         + ("lost" if not elems else "read more than once"), where)
            elif classes and got and not (classes & got):
                rep.find(f"mixed-child:{name}:{t}", f"<{t}> inside {where_r} is read as another kind of object", where)
            else:
                rep.ok()
            if not tails:
                rep.find(f"mixed-tail:{name}:{t}", f"the text after <{t}> inside {where_r} is lost", where)
            elif len(tails) > 1 or elems and tails[0][0] < elems[0][0]:
                rep.find(f"mixed-tail:{name}:{t}", f"the text after <{t}> inside {where_r} is not kept at its place", where)
            else:
                rep.ok()
    return True


def lossy(v):
    return any(x.op == "mcall" and x.a[1] in LOSSY for x in walk(v))


def is_text(v, what):
    return v.op == "attr" and v.a[1] == what and isinstance(v.a[0], T) and is_xml(v.a[0])
