"""
Enumeration tables: the table used for writing and the table used for reading
are inverse to each other, total over the members, and name each member by the
XML spelling of its name.
"""
import ast
import re
from sa.interp import Interp, Policy, State
from sa.terms import sym, walk, show, is_const, attr

# XML names that are not the spelling of the member name (AUTOSAR schema)
SPELLING = {
    ("ByteOrder", "BIG_ENDIAN"): "MOST-SIGNIFICANT-BYTE-FIRST",
    ("ByteOrder", "LITTLE_ENDIAN"): "MOST-SIGNIFICANT-BYTE-LAST",
    ("DisplayPresentation", "CONTINUOUS"): "PRESENTATION-CONTINUOUS",
    ("DisplayPresentation", "DISCRETE"): "PRESENTATION-DISCRETE",
    ("ServerArgImplPolicy", "USE_ARRAY_BASED_TYPE"): "USE-ARRAY-BASE-TYPE",
}


def norm(s):
    return re.sub("[-_]", "", s.upper())


def literal_maps(m):
    res = {}
    for n in m.tree.body:
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            tg = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(tg, ast.Name) and isinstance(n.value, ast.Dict):
                d = res.setdefault(tg.id, {})
                for k, v in zip(n.value.keys, n.value.values):
                    if isinstance(k, ast.Constant):
                        if k.value in d:
                            d[k.value] = ("dup", v)
                        else:
                            d[k.value] = v
    # later additions: NAME["X"] = ...  /  NAME.update({...})
    for n in m.tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) \
                and isinstance(n.targets[0].value, ast.Name) and isinstance(n.targets[0].slice, ast.Constant):
            res.setdefault(n.targets[0].value.id, {})[n.targets[0].slice.value] = n.value
    return res


def member_of(e):
    """(enum, member, versions) of an entry of the reading table"""
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
        return e.value.id, e.attr, None
    if isinstance(e, ast.Call) and e.args:
        x = member_of(e.args[0])
        if x is not None:
            return x[0], x[1], versions(e)
    return None


def versions(call):
    rest = list(call.args[1:]) + [k.value for k in call.keywords]
    for r in rest:
        if isinstance(r, (ast.Set, ast.List, ast.Tuple)):
            return frozenset(x.value for x in r.elts if isinstance(x, ast.Constant))
        return ast.unparse(r)
    return frozenset()


def text_of(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value, None
    if isinstance(e, ast.Call) and e.args:
        x = text_of(e.args[0])
        if x is not None:
            return x[0], versions(e)
    return None


def lookup_shape(prog, m, name, rep):
    """the table and index expression a codec function uses"""
    f = m.env.get(name)
    f = f[1] if isinstance(f, tuple) else f
    if f is None or not hasattr(f, "pos"):
        rep.skip(f"{name}: function not found")
        return None
    ip = Interp(prog, Policy())
    r = ip.run(f, {a: sym(a) for a in f.pos}, State())
    if r is None or r[0] is None:
        rep.find(f"codec:{name}", f"{name} never returns", f.where)
        return None
    maps = set()
    shapes = set()
    for x in walk(r[0]):
        if x.op == "gconst":
            maps.add(x.a[1])
        if x.op in ("item", "getitem"):
            b = x.a[0]
            if b.op == "item" and b.a[0].op == "gconst":
                shapes.add((b.a[1], x.a[1]))
    if len(maps) != 1 or not shapes:
        rep.skip(f"{name}: table lookup not recognised")
        return None
    return f, next(iter(maps)), shapes


def run(s, rep):
    prog = s.prog
    m = prog.module("autosar.xml.enumeration")
    maps = literal_maps(m)
    rd = lookup_shape(prog, m, "xml_to_enum", rep)
    wr = lookup_shape(prog, m, "enum_to_xml", rep)
    if rd:
        f, rmap, shapes = rd
        p = [sym(a) for a in f.pos]
        for a, b in shapes:
            if a is p[0] and b is p[1]:
                rep.ok()
            elif b is p[1] or p[1] not in set(walk(b)):
                rep.skip(f"xml_to_enum looks up {show(b)}")
            else:
                rep.find("codec:xml_to_enum", f"the member is looked up under {show(b)} instead of the XML text itself", f.where)
    else:
        rmap = "xml_to_enum_map"
    if wr:
        f, wmap, shapes = wr
        x = sym(f.pos[0])
        for a, b in shapes:
            if b is attr(x, "value") or b is x or b is attr(x, "name"):
                rep.ok()
            elif attr(x, "value") in set(walk(b)):
                rep.find("codec:enum_to_xml", f"the XML name is looked up at {show(b)} instead of the member's value", f.where)
            else:
                rep.skip(f"enum_to_xml looks up {show(b)}")
    else:
        wmap = "enum_to_xml_map"
    r = maps.get(rmap)
    w = maps.get(wmap)
    if r is None or w is None:
        rep.skip("enumeration tables are not literal")
        return
    members = 0
    for name in sorted(set(r) | set(w)):
        c = prog.find_cls(name, m.name)
        where = f"src/autosar/xml/enumeration.py:{name}"
        if c is None:
            if name in w:
                rep.find(f"enum:{name}", f"table entry {name} names no enumeration", where)
            continue
        if name not in r or name not in w:
            missing = rmap if name not in r else wmap
            rep.find(f"enum:{name}", f"enumeration {name} has no entry in {missing}", where)
            continue
        members += one(rep, c, name, r[name], w[name], where)
    rep.floor("enumeration members", members, 150)
    uses(s, rep, m, r, w)


def one(rep, c, name, re_, we, where):
    if isinstance(re_, tuple) or isinstance(we, tuple):
        rep.find(f"enum:{name}", f"{name} appears twice in a table, the first entry is dead", where)
        return 0
    if not isinstance(re_, ast.Dict) or not isinstance(we, (ast.List, ast.Tuple, ast.Dict)):
        rep.skip(f"{name}: entry is not literal")
        return 0
    mem = c.enum_members()
    vals = {}
    for n, v in mem:
        if v in vals:
            rep.find(f"enum:{name}.{n}", f"{name}.{n} and {name}.{vals[v]} have the same value, so they are one member", where)
        vals.setdefault(v, n)
    names = {n for n, _ in mem}
    back = {}
    for k, v in zip(re_.keys, re_.values):
        x = member_of(v)
        if not isinstance(k, ast.Constant) or x is None:
            rep.skip(f"{name}: {ast.unparse(v)}")
            continue
        if x[0] != name or x[1] not in names:
            rep.find(f"enum:{name}:{k.value}", f"{name}: XML name {k.value} is read as {x[0]}.{x[1]}", where)
            continue
        if k.value in back:
            rep.find(f"enum:{name}:{k.value}", f"{name}: XML name {k.value} is listed twice", where)
        back[k.value] = (x[1], x[2])
    out = {}
    if isinstance(we, ast.Dict):
        for k, v in zip(we.keys, we.values):
            x, t = member_of(k), text_of(v)
            if x and t:
                out[x[1]] = t
            else:
                rep.skip(f"{name}: {ast.unparse(v)}")
                return 0
    else:
        for n, v in mem:
            if not isinstance(v, int):
                rep.skip(f"{name}.{n}: value is not a constant integer")
                return 0
            if v < 0 or v >= len(we.elts):
                rep.find(f"enum:{name}.{n}", f"{name}.{n} has no XML name: index {v} of {len(we.elts)}", where)
                continue
            t = text_of(we.elts[v])
            if t is None:
                rep.skip(f"{name}.{n}: {ast.unparse(we.elts[v])}")
                continue
            out[n] = t
    for n, (t, ver) in sorted(out.items()):
        b = back.get(t)
        if b is None:
            rep.find(f"enum:{name}.{n}", f"{name}.{n} is written as {t}, which is not read", where)
        elif b[0] != n:
            rep.find(f"enum:{name}.{n}", f"{name}.{n} is written as {t}, which is read as {b[0]}", where)
        elif ver != b[1]:
            rep.find(f"enum:{name}.{n}", f"{name}.{n}: schema versions differ between writing and reading", where)
        elif norm(t) != norm(n) and SPELLING.get((name, n)) != t:
            rep.find(f"enum:{name}.{n}", f"{name}.{n} has the XML name {t}", where)
        else:
            rep.ok()
    for t, (n, _) in sorted(back.items()):
        if n not in out:
            continue
        if out[n][0] != t and norm(t) != norm(n):
            rep.find(f"enum:{name}:{t}", f"{name}: XML name {t} is read as {n}, which is written as {out[n][0]}", where)
    return len(out)


def uses(s, rep, m, r, w):
    """every enumeration named in a conversion has tables"""
    seen = set()
    for mod in s.prog.modules.values():
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Call) and n.args:
                fn = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
                if fn == "xml_to_enum" and isinstance(n.args[0], ast.Constant):
                    e = n.args[0].value
                    if e not in r:
                        rep.find(f"enum-use:{e}", f"{e} is decoded but has no reading table", f"{mod.path}:{n.lineno}")
                    elif e not in seen:
                        seen.add(e)
                        rep.ok()
    # types that flow into the encoder
    for c, f in s.writer.encoded.items():
        if c.name not in w:
            rep.find(f"enum-use:{c.name}", f"{c.name} is written but has no writing table", f.where)
        else:
            rep.ok()
    rep.floor("encoded enumerations", len(s.writer.encoded), 18)
