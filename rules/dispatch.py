"""Which kinds of element an attribute accepts, and whether writer and reader handle each of them."""
from sa.program import ClassInfo
from sa.interp import flat_events
from sa.pairing import writer_slots, unit_tags
from sa.terms import TRUE, FALSE, T, C, conj, disj, neg, mk, subst, walk, show, is_const, cval, implies
from sa.writer_sum import Dispatch
import ast


def instantiated(s):
    """classes created by name somewhere in the library"""
    memo = s.__dict__.setdefault("_instantiated", None)
    if memo is not None:
        return memo
    res = set()
    for m in s.prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
                t = s.prog.static_expr(n.func, m)
                if isinstance(t, ClassInfo):
                    res.add(t)
    s.__dict__["_instantiated"] = res
    return res


def concrete(s, c):
    inst = instantiated(s)
    return {k for k in c.all_subclasses() if k in inst or not k.subclasses}


def flat_types(ts):
    out = set()
    for x in ts or ():
        if isinstance(x, tuple):
            out |= flat_types(x[1])
        else:
            out.add(x)
    return out


def owner_classes(u):
    return [c for c in u.ip.sym_types.get(u.subject, ()) if isinstance(c, ClassInfo)]


def kinds(s, u, x):
    """concrete classes the term x (an attribute of the written object, or an item of one) can have"""
    base = x.a[0] if x.op == "elem" or x.op == "each" else x
    if x is u.subject:
        res = set()
        for c in owner_classes(u):
            res |= concrete(s, c)
        return res
    if base.op == "attr" and base.a[0] is u.subject:
        res = set()
        for c in owner_classes(u):
            ts = s.ctors.attr_type_first(c, base.a[1]) or s.ctors.attr_type(c, base.a[1])
            item = base is not x
            for t in ts or ():
                if isinstance(t, tuple) == item or (isinstance(t, ClassInfo) and not item):
                    for k in flat_types([t]):
                        if isinstance(k, ClassInfo) and not k.is_enum:
                            res |= concrete(s, k)
        return res
    return set()


def assume(g, x, k):
    """the condition g when the class of x is exactly k (None: a class nobody handles)"""
    m = {}
    for y in walk(g):
        if y.op == "inst" and y.a[0] is x and y.a[1].op == "type" or y.op == "inst" and y.a[0] is x:
            c = class_of(y.a[1])
            if c is not None:
                m[y] = TRUE if k is not None and k.is_sub(c) else FALSE
            elif k is not None and plain(y.a[1]) and not any(isinstance(b, str) and b.split(".")[-1] in BUILTIN
                                                             for b in k.mro):
                m[y] = FALSE
        elif y.op == "nn" and y.a[0] is x:
            m[y] = TRUE
        elif y.op == "truthy" and y.a[0] is x:
            m[y] = TRUE
    return subst(g, m) if m else g


BUILTIN = ("str", "int", "float", "bool", "list", "dict", "tuple", "set", "bytes")


def plain(t):
    return isinstance(t, T) and t.op in ("ext", "type", "cls") and any(
        isinstance(a, str) and a.split(".")[-1] in BUILTIN for a in t.a)


def class_of(t):
    from sa.terms import T as TT
    if isinstance(t, ClassInfo):
        return t
    if isinstance(t, TT):
        for a in t.a:
            if isinstance(a, ClassInfo):
                return a
    return None


def events(u, kinds_):
    memo = u.__dict__.setdefault("_flat", None)
    if memo is None:
        memo = u.__dict__["_flat"] = list(flat_events(u.events))
    return [(g, e) for g, e in memo if e.kind in kinds_]


def mentions(t, x):
    return isinstance(t, T) and any(y is x for y in walk(t))


def relevant(n, x):
    for t in (getattr(n, "subject", None), getattr(n, "term", None)):
        if mentions(t, x):
            return True
    if any(mentions(t, x) for t in getattr(n, "args", ()) or ()):
        return True
    return any(mentions(v, x) for _, _, v in getattr(n, "attrs", ()) or ())


def status(s, u, x, k, depth=0):
    """'ok', 'refused' or 'silent': what unit u does with the value x of class k"""
    key = (x, k)
    memo = u.__dict__.setdefault("_status", {})
    if key in memo:
        return memo[key]
    memo[key] = "ok"                      # recursion: decided by the outer call
    for g, e in events(u, ("assert",)):
        if e.data and mentions(e.data[0], x) and any(
                y.op == "inst" and y.a[0] is x for y in walk(e.data[0])):
            if assume(e.data[0], x, k) is FALSE and assume(g, x, k) is not FALSE:
                memo[key] = "refused"
                return "refused"
    worst = None
    for n in u.all_nodes():
        if x is not u.subject and not relevant(n, x):
            continue
        g = assume(n.guard, x, k)
        if g is FALSE:
            continue
        if isinstance(n, Dispatch):
            if n.args and n.args[0] is x:
                r = "ok" if k.name in s.writer.table_entries(n.table) else "refused"
            else:
                r = "ok"
        elif type(n).__name__ == "UnitCall" and n.subject is x:
            r = status(s, s.writer.unit(*n.key), s.writer.unit(*n.key).subject, k, depth + 1)
        else:
            r = "ok"
        if r == "ok":
            worst = "ok"
            break
        worst = r
    if worst is None:
        live = [e for g, e in events(u, ("raise",)) if assume(g, x, k) is not FALSE]
        worst = "refused" if live else "silent"
    memo[key] = worst
    return worst


def subjects(u):
    """values the unit hands to other units or tables, or tests for their class"""
    out = []
    for n in u.all_nodes():
        xs = []
        if isinstance(n, Dispatch):
            xs = [a for a in n.args[:1]]
        elif type(n).__name__ == "UnitCall":
            xs = [n.subject]
        if isinstance(n.guard, T):
            xs += [y.a[0] for y in walk(n.guard) if y.op == "inst"]
        for x in xs:
            if isinstance(x, T) and x not in out and x is not u.subject:
                out.append(x)
    return out


def writer_kinds(s, rep):
    for u in s.writer.units.values():
        if u.dead or u.subject is None:
            continue
        for x in subjects(u):
            for k in sorted(kinds(s, u, x), key=lambda c: c.name):
                rep.count("attribute kinds")
                r = status(s, u, x, k)
                if r == "ok":
                    rep.ok()
                    rep.sample(f"{u.name}: {show(x)} may be {k.name}: written")
                else:
                    what = "nothing is written for it" if r == "silent" else "the writer refuses it"
                    rep.find(f"kind:{u.f.name}:{show(x)}:{k.name}",
                             f"{show(x)} may be a {k.name}, but {what}", u.f.where)


def default_unit(s, f):
    """the writer unit of f called with nothing but the element"""
    wa = s.writer
    sp = wa.subject_param(f)
    cargs = []
    for p in f.pos:
        if p in ("self", sp):
            continue
        if p not in f.defaults:
            return None
        cargs.append((p, C(f.defaults[p].value) if isinstance(f.defaults[p], ast.Constant) else None))
    if any(v is None for _, v in cargs):
        return None
    return wa.unit(f, tuple(cargs))


def reads_as(s, rtable, tag):
    """classes built by the reader's table for a tag; None when not known"""
    v = s.reader.table_entries(rtable).get(tag)
    if v is None or v.op != "bound":
        return None
    ru = s.reader.unit(v.a[1])
    if ru.uses_tag:
        ru = s.reader.unit(v.a[1], ru.cargs + (("@tag", C(tag)),))
    return {o[1] for o in ru.objects()}


def table_pairs(s):
    """(writer table, reader table) -> kinds that travel through them"""
    res = {}
    for r in s.composer.results.values():
        for tw, tr in r.need_disp:
            res.setdefault((tw, tr), set())
    # the contents of packages
    for u in s.writer.units.values():
        if u.subject is None:
            continue
        for n in u.all_nodes():
            if isinstance(n, Dispatch) and n.args:
                ks = kinds(s, u, n.args[0])
                if n.args[0] is u.subject:
                    ks = set()
                    for cu in list(s.writer.units.values()):
                        for c in cu.all_nodes() if cu.subject is not None else ():
                            if type(c).__name__ == "UnitCall" and c.key == u.key:
                                ks |= kinds(s, cu, c.subject)
                tags = [t for t in unit_tags(u) if isinstance(t, str)]
                for (tw, tr), got in res.items():
                    if tw == n.table:
                        got |= ks
                for ru in list(s.reader.units.values()):
                    if tags and set(owner_classes(u)) & {o[1] for o in ru.objects()}:
                        for g, e in ru.flat():
                            if e.kind == "rdispatch" and any(
                                    x.op == "children" or x.op == "child" for x in walk(e.data[2])) \
                                    and not any(k[0] == n.table for k in res):
                                res.setdefault((n.table, e.data[0]), set()).update(ks)
    return res


def tables(s, rep):
    """element kinds that are written through one table and read back through another"""
    for (tw, tr), ks in sorted(table_pairs(s).items(), key=str):
        wt, rt = s.writer.table_entries(tw), s.reader.table_entries(tr)
        rep.count("table pairs")
        for k in sorted(ks, key=lambda c: c.name):
            v = wt.get(k.name)
            if v is None or v.op != "bound":
                continue                  # reported as an attribute kind
            rep.count("table entries")
            u = default_unit(s, v.a[1])
            if u is None or u.dead:
                rep.skip(f"{k.name}: writer {v.a[1].name} not analysed")
                continue
            if status(s, u, u.subject, k) != "ok":
                rep.find(f"writer:{k.name}", f"the writer registered for {k.name} refuses it", u.f.where)
                continue
            tags = unit_tags(u)
            if not tags or not all(isinstance(t, str) for t in tags):
                rep.skip(f"{k.name}: tag of {u.name} not known")
                continue
            for tag in sorted(tags):
                cl = reads_as(s, tr, tag)
                if cl is None:
                    rep.find(f"unread:{k.name}:{tag}",
                             f"{k.name} is written as <{tag}>, for which the reader has no entry in this place", u.f.where)
                elif not cl:
                    rep.skip(f"<{tag}>: object built by the reader not known")
                elif cl != {k}:
                    rep.find(f"kindchange:{k.name}:{tag}",
                             f"{k.name} is written as <{tag}> and read back as {', '.join(sorted(c.name for c in cl))}",
                             u.f.where)
                else:
                    rep.ok()
                    rep.sample(f"{k.name} <-> <{tag}> ({tw} / {tr})")


def entry_points(s):
    """(name, where, event list, guards, accepted reactions): every function that looks up a method in a table"""
    for u in list(s.writer.units.values()):
        yield u.name, u.f.where, [x for x in flat_events(u.events)], [
            n.guard for n in u.all_nodes() if isinstance(n, Dispatch)], ("raise",)
    wa = s.writer
    for f in wa.methods().values():
        if not f.name.startswith("_") and wa.subject_param(f) and (f, ()) not in wa.units:
            u = wa.unit(f, ())
            gs = [n.guard for n in u.all_nodes() if isinstance(n, Dispatch)]
            if gs:
                yield u.name, u.f.where, list(flat_events(u.events)), gs, ("raise",)
    for ru in list(s.reader.units.values()):
        evs = list(ru.flat())
        gs = [g for g, e in evs if e.kind == "rdispatch"]
        if gs:
            yield ru.name, ru.f.where, evs, gs, ("raise", "print")


def lookups(g):
    """the table look-ups a condition depends on: [(atom, polarity under which the entry exists)]"""
    return [y for y in walk(g) if y.op in ("nn", "truthy") and y.a[0].op == "dget" or y.op == "in" and y.a[1].op == "obj"]


def unknown_kinds(s, rep):
    """a kind without a table entry is refused with an error (when reading, reported at least)"""
    for name, where, evs, gs, how in entry_points(s):
        for g in gs:
            for atom in lookups(g):
                rep.count("table look-ups")
                miss = []
                for eg, e in evs:
                    if e.kind in how and subst(eg, {atom: TRUE}) is FALSE \
                            and subst(eg, {atom: FALSE}) is not FALSE:
                        miss.append(e)
                if miss:
                    rep.ok()
                else:
                    rep.find(f"unknown:{name}", f"{name}: an element kind without an entry in the table is "
                             f"{'not refused' if len(how) == 1 else 'neither refused nor reported'}", where)


def run(s, rep):
    writer_kinds(s, rep)
    tables(s, rep)
    unknown_kinds(s, rep)
