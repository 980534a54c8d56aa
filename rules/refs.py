"""Reference classes: permitted destinations, self references, reading of DEST."""
import json
import os
import sys
from sa.program import ClassInfo
from sa.interp import Interp, State, flat_events, HObj
from sa.ctor import CtorPolicy, param, leaves
from sa.pairing import unit_tags
from sa.terms import TRUE, FALSE, T, C, conj, disj, neg, mk, subst, walk, show, is_const, cval, implies, sym, attr
from rules.enums import norm

HERE = os.path.dirname(os.path.abspath(__file__))
TABLE = os.path.join(HERE, "ref_dest.json")


def ref_base(s):
    return s.prog.cls("BaseRef", "autosar.xml.base")


def ref_classes(s):
    return [c for c in s.prog.classes if c.is_sub(ref_base(s)) and not c.subclasses and c.lookup("accepted_sub_types")]


def dest_enum(s):
    return s.prog.cls("IdentifiableSubTypes", "autosar.xml.enumeration")


def eq_sides(y):
    """(enum member name) of an equality with an enumeration member"""
    for a, b in ((y.a[0], y.a[1]), (y.a[1], y.a[0])):
        n = member(b)
        if n is not None:
            return a, n
    return None


def member(t):
    """member name of an IdentifiableSubTypes constant"""
    x = show(t)
    if x.startswith("IdentifiableSubTypes.") and x.count(".") == 1:
        return x.split(".")[1]
    return None


def under(g, d, m):
    """condition g when the value d is enumeration member m (None: absent)"""
    mp = {}
    for y in walk(g):
        if y.op in ("nn", "truthy") and y.a[0] is d:
            mp[y] = TRUE if m is not None else FALSE
        elif y.op in ("eq", "is"):
            r = eq_sides(y)
            if r is not None and r[0] is d:
                mp[y] = TRUE if r[1] == m else FALSE
    return subst(g, mp) if mp else g


def accepted(s, c):
    """(members the constructor lets through, members not decided, dest given when none is)"""
    ct = s.ctors.get(c)
    d = param("dest")
    ok, unk = set(), []
    names = [n for n, _ in dest_enum(s).enum_members()]
    for n in names:
        gs = [under(r[0], d, n) for r in ct.raises]
        if any(g is TRUE for g in gs):
            continue
        if any(g is not FALSE for g in gs):
            unk.append(n)
            continue
        ok.add(n)
    return ok, unk


def table():
    with open(TABLE, encoding="utf-8") as fh:
        return json.load(fh)


def constructors(s, rep):
    tab = table()
    d, v = param("dest"), param("value")
    for c in ref_classes(s):
        rep.count("reference classes")
        where = c.where if hasattr(c, "where") else c.name
        ct = s.ctors.get(c)
        if not ct.entries:
            rep.skip(f"{c.name}: constructor not analysed")
            continue
        ok, unk = accepted(s, c)
        if unk:
            rep.skip(f"{c.name}: {len(unk)} destination types not decided")
            continue
        if not ok:
            rep.find(f"nodest:{c.name}", f"{c.name} accepts no destination type", where)
            continue
        if len(ok) == len(dest_enum(s).enum_members()):
            rep.find(f"anydest:{c.name}", f"{c.name} accepts every destination type", where)
            continue
        rep.ok()
        want = set(tab.get(c.name, ok))
        for n in sorted(want - ok):
            rep.find(f"refused:{c.name}:{n}", f"{c.name} refuses the permitted destination type {n}", where)
        for n in sorted(ok - want):
            rep.find(f"foreign:{c.name}:{n}", f"{c.name} accepts the destination type {n}, which is not permitted for it", where)
        rep.ok(len(want & ok))
        rep.sample(f"{c.name}: exactly {', '.join(sorted(ok))[:120]}")
        # the stored values
        val = ct.entries.get("value")
        if val is None or not any(x is v for _, x in leaves(val)) or any(
                not (x is v or (x.op == "call" and x.a[:1] == ("str",) and x.a[1] is v)) for _, x in leaves(val)):
            rep.find(f"value:{c.name}", f"{c.name} does not keep the reference text it is given", where, show(val) if val else "")
        else:
            rep.ok()
        dv = ct.entries.get("dest")
        for n in sorted(ok):
            got = {show(x) for g, x in leaves(dv) if under(g, d, n) is not FALSE} if dv is not None else set()
            if got == {"p:dest"} or got == {f"IdentifiableSubTypes.{n}"} or got == {"p:dest", f"IdentifiableSubTypes.{n}"}:
                rep.ok()
            else:
                rep.find(f"dest:{c.name}", f"{c.name} created with destination type {n} has {', '.join(sorted(got)) or 'none'}", where)
        # no destination given: the default, or a refusal
        if "dest" in ct.defaults or "dest" in ct.params:
            gs = [under(r[0], d, None) for r in ct.raises]
            if not any(g is TRUE for g in gs):
                got = {member(x) for g, x in leaves(dv) if under(g, d, None) is not FALSE}
                if got <= ok:
                    rep.ok()
                else:
                    rep.find(f"default:{c.name}", f"{c.name} created without destination type has {got}", where)
            else:
                rep.ok()
    return


def default_dest(s, c):
    """members dest can have when the class is called with the text only"""
    ip = Interp(s.prog, CtorPolicy())
    st = State()
    ip.frames.append((c.lookup("__init__"), c.module, c))
    o = ip.instantiate(c, [sym("v")], {}, st, None)
    v = st.heap[o].entries.get("dest") if o in st.heap else None
    return None if v is None else {member(x) for _, x in leaves(v)}


# ---------------------------------------------------------------- self references
def self_refs(s, rep):
    """element.ref(): destination type is the tag the element is written under"""
    from rules.dispatch import concrete
    wtags = writer_tags(s)
    em = s.prog.module("autosar.xml.element")
    for c in s.prog.classes:
        if c.module is not em:
            continue
        f = c.lookup("ref")
        if f is None or c not in concrete(s, c):
            continue
        rep.count("self references")
        ip = Interp(s.prog, CtorPolicy())
        st = State()
        me = sym("element")
        st.heap[me] = HObj("inst", c, me)
        ip.sym_certain[me] = {c}
        try:
            v, st2, ev = ip.run(f, {"self": me}, st, me)
        except Exception as exc:          # pylint: disable=broad-except
            rep.skip(f"{c.name}.ref(): {exc}")
            continue
        if v is None:
            # never returns: abstract
            rep.count("classes without self reference")
            continue
        raises = [(g, e) for g, e in flat_events(ev) if e.kind == "raise"]
        got = 0
        for g, x in leaves(v):
            if x.op == "obj" and st2.heap[x].kind == "inst":
                o = st2.heap[x]
                got += 1
                where = f.where
                if not o.cls.is_sub(ref_base(s)):
                    rep.find(f"refclass:{c.name}", f"{c.name}.ref() gives a {o.cls.name}", where)
                    continue
                for g2, d in leaves(o.entries["dest"]):
                    m = member(d)
                    if m is None:
                        rep.skip(f"{c.name}.ref(): destination {show(d)[:80]}")
                        continue
                    tags = wtags.get(c, set())
                    if not tags:
                        rep.skip(f"{c.name}: not written under a known tag")
                    elif any(norm(t) == norm(m) for t in tags) or norm(c.name) == norm(m):
                        # role-named children (ELEMENT, MODE-GROUP) are referenced by their class name
                        rep.ok()
                        rep.sample(f"{c.name}.ref(): DEST {m}, written as {sorted(tags)[0]}")
                    else:
                        rep.find(f"selfdest:{c.name}", f"{c.name}.ref() has destination type {m}, but the element is "
                                 f"written as {', '.join(sorted(tags))}", where)
                for rg, e in raises:
                    if conj(rg, g) is TRUE or implies(g, rg):
                        rep.find(f"selfref:{c.name}", f"{c.name}.ref() always ends in an error", where)
        if not got:
            if raises:
                rep.find(f"selfref:{c.name}", f"{c.name}.ref() never gives a reference", f.where,
                         "; ".join(show(e.data[0])[:120] for _, e in raises if e.data))
            else:
                rep.count("classes without self reference")


def writer_tags(s):
    memo = s.__dict__.get("_wtags")
    if memo is not None:
        return memo
    res = {}
    for u in s.writer.units.values():
        if u.dead or u.subject is None:
            continue
        for t in unit_tags(u):
            if isinstance(t, str):
                for c in u.ip.sym_types.get(u.subject, ()):
                    if isinstance(c, ClassInfo):
                        res.setdefault(c, set()).add(t)
    s.__dict__["_wtags"] = res
    return res


# ---------------------------------------------------------------- reading DEST
def reading(s, rep):
    """a reference read from XML has the DEST of the XML, or the reader refuses it"""
    for ru in list(s.reader.units.values()):
        seen = set()
        for g, cls, ent, leaf in ru.objects():
            if not cls.is_sub(ref_base(s)) or (cls, leaf) in seen:
                continue
            seen.add((cls, leaf))
            rep.count("reference readers")
            for g2, d in leaves(ent["dest"]):
                gg = conj(g, g2)
                if gg is FALSE:
                    continue
                m = member(d)
                if any(x.op == "xattr" and x.a[-1] == "DEST" for x in walk(d)):
                    rep.ok()
                elif m is not None:
                    # a constant destination: only when the XML says so
                    dx = [x for x in walk(gg) if x.op == "xattr" and "DEST" in x.a]
                    eqs = [y for y in walk(gg) if y.op == "eq" and any(x in dx for x in walk(y))]
                    raises = [rg for rg, e in ru.flat() if e.kind == "raise"]
                    if any(implies(gg, y) and any(is_const(z) and norm(str(cval(z))) == norm(m) for z in y.a) for y in eqs):
                        rep.ok()
                    elif eq_refused(raises, m):
                        rep.ok()
                    else:
                        rep.find(f"readdest:{ru.f.name}", f"{ru.f.name} gives the reference the destination type {m} whatever "
                                 f"DEST the XML has", ru.f.where, show(gg)[:200])
                else:
                    rep.skip(f"{ru.name}: destination {show(d)[:80]}")


def eq_refused(raises, m):
    """some raise happens whenever DEST differs from the member's XML name"""
    for rg in raises:
        for y in walk(rg):
            if y.op == "eq" and any(is_const(z) and isinstance(cval(z), str) and norm(cval(z)) == norm(m) for z in y.a) \
                    and any(x.op == "xattr" and "DEST" in x.a for x in walk(y)) and subst(rg, {y: TRUE}) is FALSE:
                return True
    return False


def record(s):
    return {c.name: sorted(accepted(s, c)[0]) for c in ref_classes(s)}


def run(s, rep):
    constructors(s, rep)
    self_refs(s, rep)
    reading(s, rep)


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    from sa.session import Session
    t = record(Session())
    with open(TABLE, "w", encoding="utf-8") as fh:
        json.dump(t, fh, indent=1, sort_keys=True)
        fh.write("\n")
    print(len(t), "reference classes")
