"""
Order and names of the child elements and XML attributes the writer emits,
compared with a frozen table of the schema sequences.
"""
import json
import os
from sa.terms import TRUE, FALSE, conj, walk, sym, is_const, cval, show, T, neg
from sa.compose import Doc, Node, NodeInterp, NodePolicy, ELEM
from .markup import entries

TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "schema_order.json")


def loop_of(g):
    return frozenset(x.a[0] for x in walk(g) if x.op == "loop")


def sequences(s):
    """{(class, path): ([ (guard, tag, loops, loc) ], [ (guard, attribute name, loc) ], location)}"""
    wa = s.writer
    res = {}
    for u in list(wa.units.values()) + list(entries(s)):
        cls = sorted(c.name for c in wa.classes_for(u.f)) if u.subject is not None else []
        own = "|".join(cls) if cls else "document" if u in entries(s) else None
        if own is None:
            continue
        doc = Doc(wa)
        pol = NodePolicy(s.composer, doc, set(wa.classes_for(u.f)) if cls else set())
        ip = doc.ip = NodeInterp(wa.prog, pol)
        ip.next_id = 300000
        if cls:
            ip.sym_types[ELEM] = set(wa.classes_for(u.f))
        base = [x for x in doc.flatten(u.roots, None, TRUE)]
        for r in base:
            if isinstance(r, Node) and r.origin == "el":
                walk_el(doc, r, own, label(r.tag), res, u)
    return res


def where(runs, attrs):
    for kids in runs:
        for k in kids:
            return k[3]
    return attrs[0][2] if attrs else ""


def label(tag):
    if isinstance(tag, T):
        return cval(tag) if is_const(tag) else "*"
    return tag


def arms(tag, g):
    """the names a computed tag can be, each with its condition; ? when they are not known"""
    if isinstance(tag, T) and tag.op == "phi":
        out = []
        for c, x in ((tag.a[0], tag.a[1]), (neg(tag.a[0]), tag.a[2])):
            h = conj(g, c)
            if h is not FALSE:
                out += arms(x, h)
        return out
    if isinstance(tag, T) and not is_const(tag):
        return [(g, "?")]
    t = label(tag)
    return [(g, t if isinstance(t, str) else "?")]


def walk_el(doc, node, own, path, res, u, depth=0):
    seq, attrs = res.setdefault((own, path), ([], []))
    for g, el, sub in node.variants:
        gg = doc.g(el.guard, sub)
        kids = []
        for x in doc.flatten(el.children, sub, gg):
            if not isinstance(x, Node):
                continue
            g2 = conj(gg, x.guard)
            if g2 is FALSE:
                continue
            for g4, tag in [(g2, "*")] if x.origin == "disp" else arms(x.tag, g2):
                kids.append((g4, tag, loop_of(x.guard), el.loc))
                if x.origin == "el" and depth < 6:
                    walk_el(doc, x, own, path + "/" + tag, res, u, depth + 1)
        if kids:
            seq.append(kids)
        for g3, k, v in el.attrs:
            if isinstance(k, T):
                k = cval(k) if is_const(k) else None
            if k is not None:
                attrs.append((conj(gg, doc.g(g3, sub)), k, el.loc))


def groups(runs):
    """order of the child tags over all variants: list of groups of mutually unordered tags"""
    before = {}
    tags = []
    for kids in runs:
        for i, (g, a, la, _) in enumerate(kids):
            if a not in tags:
                tags.append(a)
            for g2, b, lb, _ in kids[i + 1:]:
                if a == b or (not la & lb and conj(g, g2) is FALSE):
                    continue
                before.setdefault(a, set()).add(b)
                if la & lb:
                    before.setdefault(b, set()).add(a)
    # strongly connected tags are one group
    reach = {t: closure(before, t) for t in tags}
    done, out = set(), []
    for t in tags:
        if t in done:
            continue
        grp = [x for x in tags if x == t or (x in reach[t] and t in reach[x])]
        done.update(grp)
        out.append(grp)
    # order the groups: t before u when u reachable from t
    res = []
    for grp in out:
        i = len(res)
        for j, o in enumerate(res):
            if o[0] in reach[grp[0]]:
                i = j
                break
        res.insert(i, grp)
    return res


def closure(before, t):
    seen, st = set(), [t]
    while st:
        for y in before.get(st.pop(), ()):
            if y not in seen:
                seen.add(y)
                st.append(y)
    return seen


def record(s):
    tab = {}
    for (own, path), (runs, attrs) in sorted(sequences(s).items()):
        if not runs and not attrs and "/" in path:
            continue
        tab[f"{own} {path}"] = {"children": groups(runs), "attributes": sorted({k for _, k, _ in attrs})}
    return tab


def run(s, rep):
    with open(TABLE, encoding="utf-8") as fh:
        tab = json.load(fh)
    heads, paths = {}, {}
    for k, v in tab.items():
        own, path = k.split(" ", 1)
        paths.setdefault(path, []).append(v)
        if "/" not in path:
            for c in own.split("|"):
                heads.setdefault(c, set()).add(path)
    found = sequences(s)
    n = 0
    for (own, path), (runs, attrs) in sorted(found.items()):
        key = f"{own} {path}"
        t = tab.get(key)
        if t is None and "/" not in path and own != "document":
            known = set().union(*[heads.get(c, set()) for c in own.split("|")])
            if known and path != "*" and path not in known and path not in paths:
                rep.find(f"tag:{own}:{path}", f"{own} is written as <{path}>, the schema has "
                         f"{', '.join(sorted(known - {'*'})) or 'other names'}", where(runs, attrs))
                continue
        if t is None:
            cand = paths.get(path, [])
            if cand and all(c == cand[0] for c in cand):
                t = cand[0]
        if not runs and not attrs:
            continue
        if t is None:
            rep.skip(f"{key}: element not in the table")
            continue
        idx = {tag: i for i, grp in enumerate(t["children"]) for tag in grp}
        for kids in runs:
            for i, (g, a, la, loc) in enumerate(kids):
                n += 1
                if a == "?":
                    rep.skip(f"{key}: child with a computed name")
                    continue
                if a not in idx:
                    rep.find(f"child:{own}:{path}:{a}", f"{own} is written with <{a}> inside <{path}>, "
                             "which the schema does not have there", loc)
                    continue
                bad = None
                for g2, b, lb, _ in kids[i + 1:]:
                    if b in idx and idx[b] < idx[a] and conj(g, g2) is not FALSE:
                        bad = b
                        break
                if bad is None:
                    rep.ok()
                else:
                    rep.find(f"order:{own}:{path}:{bad}:{a}", f"{own}: <{a}> is written before <{bad}> inside <{path}>, "
                             "the schema has them the other way round", loc)
        for g, k, loc in attrs:
            n += 1
            if k in t["attributes"]:
                rep.ok()
            else:
                rep.find(f"attribute:{own}:{path}:{k}", f"{own} is written with attribute {k} on <{path}>, "
                         "which the schema does not have there", loc)
    rep.floor("children and attributes compared", n, 500)


if __name__ == "__main__":
    from sa.session import Session
    with open(TABLE, "w", encoding="utf-8") as out:
        t = record(Session())
        out.write("{\n" + ",\n".join(f" {json.dumps(k)}: {json.dumps(v)}" for k, v in t.items()) + "\n}\n")
