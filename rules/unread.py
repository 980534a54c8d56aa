"""
No child element disappears without notice: what a reader method does not read it reports.

(A) an element whose children are looked up by tag (child map): on every path that returns, all
    children that were not looked up are reported, after the last lookup;
(B) a loop over all children that tells at least two kinds apart: every child is read, reported or
    refused;
(C) a child that is looked up is read or refused wherever it is present;
(D) the book-keeping that (A) relies on: looking a child up marks it, and only it; every child of the
    element is in the map; the report is suppressed only for a kind reported before, or by configuration.
"""
from sa.terms import T, mk, C, NONE, walk, show, conj, disj, neg, subst, TRUE, FALSE, is_const, cval, attr
from sa.terms import sym
from sa.interp import Interp, State, HObj, flat_events
from sa.reader_sum import ReaderPolicy, RUnit, SELF, is_xml, child, XML


def deep(d):
    """terms in event data"""
    if isinstance(d, T):
        yield d
    elif isinstance(d, (tuple, list)):
        for x in d:
            yield from deep(x)


def mentions(e, pred):
    return any(pred(y) for t in deep(e.data) for y in walk(t))


def leaves(g):
    if g.op in ("and", "or", "not"):
        for x in g.a:
            if isinstance(x, T):
                yield from leaves(x)
    else:
        yield g


def is_self_attr(t):
    return t.op == "attr" and t.a[0].op == "sym" and t.a[0].a[0] == "self"


def each_of(t, c):
    return t.op in ("elem", "each") and t.a[0] is c


def configuration(g, item):
    """the condition when reports are switched on and the kind has not been reported before"""
    m = {}
    for a in leaves(g):
        if a.op == "in" and isinstance(a.a[1], T) and is_self_attr(a.a[1]) and any(item(y) for y in walk(a.a[0])):
            m[a] = FALSE
        elif a.op == "truthy" and isinstance(a.a[0], T) and is_self_attr(a.a[0]) and a.a[0].a[1] in SWITCH:
            m[a] = TRUE
    return subst(g, m) if m else g


SWITCH = {"warn_on_unprocessed_element"}   # attributes that switch the reports on

REPORT = ("print", "warn")


def is_report(e):
    return e.kind in REPORT


def raises(flat):
    return disj(*[g for g, e in flat if e.kind == "raise" and not caught(e)])


def caught(e):
    return False


class Unit:
    def __init__(self, u):
        self.u = u
        self.flat = list(u.flat())


def loop_atoms(g):
    return [a for a in leaves(g) if a.op == "loop"]


def drop_loops(g, keep=()):
    m = {a: TRUE for a in loop_atoms(g) if a not in keep}
    return subst(g, m) if m else g


def maps(rep, u, flat):
    """(A)"""
    for x in dict.fromkeys(e.data[0] for _, e in flat if e.kind == "cmap"):
        vals = mk("cmapvals", x)

        def item(y):
            return each_of(y, vals)
        tags = sorted({str(e.data[1]) for _, e in flat if e.kind == "consume" and e.data[0] is x})
        gm = disj(*[g for g, e in flat if e.kind == "cmap" and e.data[0] is x])
        reports = [(i, g, e) for i, (g, e) in enumerate(flat) if is_report(e) and mentions(e, item)]
        where = where_of(u, x)
        if not reports:
            opaque = [e for _, e in flat if e.kind in ("mcall", "call", "xcall") and mentions(e, lambda y: y is mk("cmap", x))]
            if opaque:
                rep.skip(f"{u.name}: {opaque[0].data[:2]}")
                continue
            rep.find(f"silent|{u.f.name}|{where}", f"{u.f.name} looks up {len(tags)} kinds of children of {where} "
                     "and does not report the others", f"reader.py:{u.f.node.lineno}", ", ".join(tags))
            continue
        rep.sample(f"{u.name}: {where}: {len(tags)} kinds read, the others reported")
        # reported on every path that returns, for every child that was not looked up
        marks = [a for _, g, _ in reports for a in leaves(g)
                 if a.op in ("truthy", "eq") and any(item(y) for y in walk(a)) and a.op == "truthy"]
        got = disj(*[configuration(drop_loops(g), item) for _, g, _ in reports])
        flag = {a for a in marks if a.a[0].op == "attr" and item(a.a[0].a[0])}
        want = conj(gm, *[neg(a) for a in flag])
        want = drop_loops(want)
        rs = [drop_loops(g) for g, e in flat if e.kind == "raise"]
        miss = conj(want, neg(got), *[neg(r) for r in rs if shares(r, got)])
        if miss is not FALSE:
            rep.find(f"unreported|{u.f.name}|{where}", f"{u.f.name} does not report unread children of {where} on every path",
                     f"reader.py:{reports[0][2].line}", show(miss)[:300])
        else:
            rep.ok()
        # and only those
        extra = [a for a in leaves(got) if any(item(y) for y in walk(a)) and a not in flag and a.op != "nn"]
        if not flag or subst(got, {a: TRUE for a in flag}) is not FALSE:
            rep.find(f"overreport|{u.f.name}|{where}", f"{u.f.name} reports children of {where} that were looked up",
                     f"reader.py:{reports[0][2].line}", show(got)[:300])
        elif extra:
            rep.skip(f"{u.name}: condition {show(extra[0])[:60]}")
        last = max(i for i, _, _ in reports)
        first = min(i for i, _, _ in reports)
        late = [e for i, (g, e) in enumerate(flat) if i > first and e.kind == "consume" and e.data[0] is x
                and conj(g, flat[first][0]) is not FALSE]
        if late:
            rep.find(f"early|{u.f.name}|{where}|{late[0].data[1]}", f"{u.f.name} looks up {late[0].data[1]} after the report",
                     f"reader.py:{late[0].line}")
        else:
            rep.ok()
        del last


def shares(a, b):
    la = set(leaves(a))
    return any(x in la for x in leaves(b))


def where_of(u, x):
    if x is XML:
        return "its element"
    for y in walk(x):
        if y.op in ("child", "children"):
            return str(y.a[1])
    return x.op


def own_tag(u, x):
    """the kind of an element that is read by a method of its own"""
    if x is not XML:
        return None
    return u.ra_tags.get(u.f) if hasattr(u, "ra_tags") else None


def by_path(rep, u, flat):
    """elements whose children are looked up by tag without a map"""
    got = {}
    mapped = {e.data[0] for _, e in flat if e.kind == "cmap"}
    loops = {e.data[0] for _, e in flat if e.kind == "consume" and e.data[1] in ("*", ".")}
    for _, e in flat:
        if e.kind == "consume" and e.data[2] in ("find", "all") and e.data[1] not in ("*", None):
            got.setdefault(e.data[0], {})[e.data[1]] = e
    for x, tags in got.items():
        if x in mapped or x in loops:
            continue
        where = where_of(u, x)
        if len(tags) < 2 and not (where in MANY or own_tag(u, x) in MANY):
            rep.count("containers of one kind")
            continue
        rep.find(f"silent|{u.f.name}|{where}", f"{u.f.name} looks up {len(tags)} kinds of children of {where} "
                 "and does not report the others", f"reader.py:{u.f.node.lineno}", ", ".join(sorted(map(str, tags))))


MANY = ("SDG",)        # containers of several kinds of which the reader knows one

SKIPPED = ("VTF",)      # documented as not supported, ignored on purpose

HANDLED = ("runit", "rdispatch", "raise", "print", "warn", "listop", "setitem", "setattr")


def kinds_tested(flat, item):
    tags = set()
    dispatch = False
    for g, e in flat:
        for a in leaves(g):
            if a.op == "eq" and any(isinstance(y, T) and y.op == "attr" and y.a[1] == "tag" and item(y.a[0]) for y in a.a):
                tags |= {cval(y) for y in a.a if isinstance(y, T) and is_const(y)}
            if a.op in ("nn", "truthy", "in") and any(y.op == "attr" and y.a[1] == "tag" and item(y.a[0]) for y in walk(a)) \
                    and any(y.op == "dget" for y in walk(a)):
                dispatch = True
        if e.kind == "rdispatch" and mentions(e, item):
            dispatch = True
    return tags, dispatch


def loops(rep, u, flat):
    """(B)"""
    for x in dict.fromkeys(e.data[0] for _, e in flat if e.kind == "consume" and e.data[1] == "*" and e.data[2] == "all"):
        c = mk("children", x, "*")

        def item(y):
            return each_of(y, c)
        inside = [(g, e) for g, e in flat if any(a.op == "loop" and a.a[0] is c for a in leaves(g))]
        if not inside:
            if not any(mentions(e, lambda y: y is c) for _, e in flat if e.kind != "consume") \
                    and not any(c in set(walk(g)) for g, e in flat):
                rep.count("children only counted")
            continue
        tags, dispatch = kinds_tested(inside, item)
        where = where_of(u, x)
        if len(tags) < 2 and not dispatch and not (where in MANY or own_tag(u, x) in MANY):
            rep.count("containers of one kind")
            continue
        lp = mk("loop", c)
        done = [mk("eq", attr(i, "tag"), C(t)) for i in items_of(inside, item) for t in SKIPPED]
        for g, e in inside:
            if e.kind in HANDLED and mentions(e, item) or e.kind == "raise":
                if e.kind in ("listop", "setitem", "setattr") and not content(e, item):
                    continue
                done.append(configuration(g, item) if is_report(e) else g)
        outer = outer_guard(inside, lp)
        miss = conj(outer, lp, neg(disj(*done)) if done else TRUE)
        if miss is FALSE:
            rep.ok()
            rep.sample(f"{u.name}: every child of {where} is read, reported or refused")
        else:
            rep.find(f"dropped|{u.f.name}|{where}", f"{u.f.name} ignores children of {where} without a report",
                     f"reader.py:{u.f.node.lineno}", show(miss)[:300])


def outer_guard(inside, lp):
    """what decides whether the loop is reached: the common conjuncts of its events outside the loop"""
    best = None
    for g, _ in inside:
        cs = set(g.a) if g.op == "and" else {g}
        cs = {x for x in cs if not any(y.op in ("elem", "each") and y.a[0] is lp.a[0] for y in walk(x))}
        best = cs if best is None else best & cs
    return conj(*sorted(best, key=lambda t: t.n if hasattr(t, "n") else 0)) if best else TRUE


def items_of(flat, item):
    """the terms for one child"""
    return list(dict.fromkeys(y for g, e in flat for t in [g, *deep(e.data)] for y in walk(t) if item(y)))


def first_child(rep, u, flat):
    """(B) for the first child of an element, whatever it is"""
    items = dict.fromkeys(y for g, e in flat for t in [g, *deep(e.data)] for y in walk(t)
                          if is_xml(y) and y.op in ("child", "node") and len(y.a) > 1 and y.a[1] in ("*", 0))
    for c in items:
        def item(y):
            return y is c
        inside = [(g, e) for g, e in flat if any(item(y) for y in walk(g)) or mentions(e, item)]
        tags, dispatch = kinds_tested(inside, item)
        if len(tags) < 2 and not dispatch:
            continue
        where = where_of(u, c.a[0])
        done = []
        for g, e in inside:
            if e.kind in HANDLED and mentions(e, item) or e.kind == "raise":
                if e.kind in ("listop", "setitem", "setattr") and not content(e, item):
                    continue
                done.append(configuration(g, item) if is_report(e) else g)
        reach = disj(*[g for g, e in inside if e.kind in HANDLED or e.kind == "consume"])
        reach = strip(reach, item)
        miss = conj(drop_loops(reach), mk("nn", c), neg(disj(*[drop_loops(g) for g in done])))
        if miss is FALSE:
            rep.ok()
        else:
            rep.find(f"dropped|{u.f.name}|{where}", f"{u.f.name} ignores the child of {where} without a report",
                     f"reader.py:{u.f.node.lineno}", show(miss)[:300])


def strip(g, item):
    """the part of a condition that is not about the child: its atoms about the child removed"""
    if g.op == "or":
        return disj(*[strip(x, item) for x in g.a])
    if g.op == "and":
        return conj(*[strip(x, item) for x in g.a])
    return TRUE if any(item(y) for y in walk(g)) else g


def content(e, item):
    """the stored value holds the child or its text, not just its tag"""
    for t in deep(e.data[1:]):
        for y in walk(t):
            if y.op == "attr" and y.a[1] in ("text", "attrib") and item(y.a[0]):
                return True
            if y.op in ("runit", "rdisp") and any(isinstance(z, T) and item(z) for z in y.a):
                return True
            if y.op == "xattr" and item(y.a[0]):
                return True
    return False


def where_held(v, c, memo=None):
    """the condition under which the value holds the child (its mere presence in a condition does not count)"""
    memo = {} if memo is None else memo
    if v is c:
        return TRUE
    if v in memo:
        return memo[v]
    if v.op == "phi":
        r = disj(conj(v.a[0], where_held(v.a[1], c, memo)), conj(neg(v.a[0]), where_held(v.a[2], c, memo)))
        if any(y is c and y is not v.a[0] for y in walk(v.a[0])) and not is_presence(v.a[0], c):
            r = TRUE
    else:
        r = disj(*[where_held(x, c, memo) for x in deep(v.a)])
    memo[v] = r
    return r


def is_presence(g, c):
    """the condition looks at nothing of the child but whether it is there"""
    return all(c not in set(walk(x)) or x.op in ("nn", "truthy") and x.a[0] is c for x in leaves(g))


def lookups(rep, u, flat):
    """(C)"""
    n = 0
    results = [(TRUE, u.value)] if u.value is not None else []
    for o in u.heap.values():
        results += [(TRUE, v) for v in o.entries.values() if isinstance(v, T)]
        results += [(gi, v) for gi, v in o.items if isinstance(v, T)]
    seen = set()
    for i, (g, e) in enumerate(flat):
        if e.kind != "consume" or e.data[1] in ("*", None) or e.data[2] == "skip":
            continue
        x, tag, how = e.data
        c = mk("children", x, tag) if how == "all" else child(x, tag)
        if c in seen:
            continue
        seen.add(c)
        used = []
        for g2, e2 in flat:
            if e2.kind in ("needs", "cmapvalues"):
                continue
            if e2.kind == "consume" and (e2.data[0] is x or how == "all"):
                continue
            if mentions(e2, lambda y: y is c):
                used.append(conj(g2, disj(*[where_held(y, c) for y in deep(e2.data)])))
            elif e2.kind == "raise" and c in set(walk(g2)):
                used.append(g2)
        n += 1
        final = disj(*[conj(g2, where_held(v, c)) for g2, v in results])
        if final is not FALSE:
            used.append(final)
        if not used:
            rep.find(f"unused|{u.f.name}|{tag}", f"{u.f.name} looks up {tag} and does nothing with it", f"reader.py:{e.line}")
        else:
            here = conj(g, mk("nn", c)) if how != "all" else g
            here, used = drop_loops(here), [drop_loops(x) for x in used]
            miss = conj(here, neg(disj(*used))) if used else FALSE
            if miss is not FALSE:
                rep.find(f"unused|{u.f.name}|{tag}", f"{u.f.name} looks up {tag} and does not always use it",
                         f"reader.py:{e.line}", show(miss)[:300])
            else:
                rep.ok()
    rep.count("lookups", n)


class RootUnit(RUnit):
    """the methods that read the document's root element"""

    def __init__(self, ra, f):
        super().__init__(ra, f, ())

    def analyse(self):
        ra = self.ra
        ip = Interp(ra.prog, ReaderPolicy(ra))
        ip.next_id = 200000
        st = State(heap=dict(ra.init_heap))
        o = st.heap[SELF]
        st.heap[SELF] = HObj("inst", o.cls, o.base, (), {**o.entries, "xml_root": XML}, o.meta)
        ip.sym_certain[SELF] = {ra.reader_cls}
        st.pc = frozenset((mk("nn", XML),))
        val, st2, ev = ip.run(self.f, {"self": SELF}, st)
        self.imprecise = ip.imprecise
        self.events, self.heap, self.value, self.done = ev, st2.heap, val, True


def root_units(ra):
    for c in ra.reader_cls.mro:
        for f in c.methods.values():
            if f.pos == ["self"] or tuple(f.pos) == ("self",):
                u = RootUnit(ra, f)
                u.analyse()
                if any(e.kind == "cmap" or e.kind == "consume" for _, e in u.flat()):
                    yield u


class MapPolicy(ReaderPolicy):
    """types of the entries of the child map"""
    holder = None

    def certain_type(self, ip, t, st):
        if self.holder is not None and is_entry(t):
            return {self.holder}
        return super().certain_type(ip, t, st)


def is_entry(t):
    """an entry of a dictionary of the map"""
    if t.op == "mcall" and t.a[1] in ("get", "pop", "setdefault") and is_self_attr(t.a[0]):
        return True
    return t.op in ("index", "item", "getitem", "dget") and isinstance(t.a[0], T) and is_self_attr(t.a[0])


def bookkeeping(rep, s):
    """(D)"""
    ra = s.reader
    cls = ra.map_cls
    me = sym("self")

    def run_method(name, holder=None):
        f = cls.lookup(name)
        if f is None:
            return None
        pol = MapPolicy(ra)
        pol.holder = holder
        ip = Interp(ra.prog, pol)
        ip.next_id = 500000
        st = State()
        st.heap[me] = HObj("inst", cls, me)
        ip.sym_certain[me] = {cls}
        args = {"self": me}
        xp = ra.xml_param(f)
        for p in f.pos[1:]:
            args[p] = XML if p == xp or name == "__init__" else sym(p)
        v, st2, ev = ip.run(f, args, st)
        return v, st2, list(flat_events(ev)), ip.imprecise, f

    r = run_method("__init__")
    if r is None:
        rep.skip("constructor of the child map")
        return
    _, st, ev, imp, f = r
    c = mk("children", XML, "*")

    def item(y):
        return each_of(y, c)
    stores = [(g, e) for g, e in ev if e.kind == "setitem" and isinstance(e.data[1], T)
              and any(item(y) for y in walk(e.data[1]))]
    wrapped = None
    for g, e in stores:
        o = st.heap.get(e.data[2])
        if o is not None and o.kind == "inst" and o.cls is not None and any(isinstance(v, T) and item(v) for v in o.entries.values()):
            wrapped = (g, e, o)
    if wrapped is None:
        rep.skip("the child map does not hold wrapped children")
        return
    g, e, o = wrapped
    hold = [k for k, v in o.entries.items() if isinstance(v, T) and item(v)]
    flags = [k for k, v in o.entries.items() if isinstance(v, T) and is_const(v) and isinstance(cval(v), bool)]
    gg = subst(g, {a: FALSE for a in leaves(g) if a.op == "in" and a.a[1] is e.data[0]})
    gg = drop_loops(gg)
    if gg is not TRUE:
        rep.find("map|init|some", "the child map leaves out children", f"reader.py:{e.line}", show(g)[:200])
    else:
        rep.ok()
    k = e.data[1]
    if not (k.op == "attr" and k.a[1] == "tag" and item(k.a[0])):
        rep.find("map|init|key", "the child map does not file children under their own tag", f"reader.py:{e.line}", show(k)[:200])
    else:
        rep.ok()
    init_true = [x for x in flags if cval(o.entries[x]) is True]
    for name in ("get", "skip"):
        r = run_method(name, o.cls)
        if r is None:
            rep.skip(f"method {name} of the child map")
            continue
        v, st2, ev, imp, f = r
        entries = dict.fromkeys(y for g2, e2 in ev for t in [g2, *deep(e2.data)] for y in walk(t) if is_entry(y))
        if v is not None:
            entries.update(dict.fromkeys(y for y in walk(v) if is_entry(y)))
        if not entries:
            if name == "get" and v is not None and is_const(v):
                rep.find("map|get|none", "looking up a child never finds it", f"reader.py:{f.node.lineno}")
            elif name == "skip":
                rep.find("map|skip|nothing", "skipping a child has no effect", f"reader.py:{f.node.lineno}")
            else:
                rep.skip(f"method {name} of the child map: {show(v)[:80] if v is not None else ''}")
            continue
        tagp = sym(f.pos[1]) if len(f.pos) > 1 else None
        for y in entries:
            args = [z for z in deep(y.a[1:])]
            if tagp is not None and not any(z is tagp for z in args):
                rep.find(f"map|{name}|key", f"{name} of the child map looks up another child", f"reader.py:{f.node.lineno}", show(y)[:100])
                continue
            sets = [g2 for g2, e2 in ev if e2.kind == "setattr" and e2.data[0] is y and e2.data[1] in flags
                    and is_const(e2.data[2]) and cval(e2.data[2]) is not cval(o.entries[e2.data[1]])]
            have = mk("nn", y)
            miss = conj(have, neg(disj(*sets)) if sets else TRUE)
            there = [a for a in leaves(miss) if a.op == "in"]
            miss = subst(miss, {a: TRUE for a in there}) if there else miss
            if miss is not FALSE:
                rep.find(f"map|{name}|mark", f"{name} of the child map does not mark the child as looked up",
                         f"reader.py:{f.node.lineno}", show(miss)[:200])
            else:
                rep.ok()
            if name == "get":
                got = []
                for g2, leaf in result_leaves(v):
                    if leaf.op == "attr" and leaf.a[0] is y and leaf.a[1] in hold:
                        got.append(g2)
                    elif leaf is NONE:
                        pass
                    else:
                        got = None
                        rep.skip(f"get of the child map returns {show(leaf)[:60]}")
                        break
                if got is not None:
                    miss = conj(have, neg(disj(*got)) if got else TRUE)
                    there = [a for a in leaves(miss) if a.op == "in"]
                    miss = subst(miss, {a: TRUE for a in there}) if there else miss
                    if miss is not FALSE:
                        rep.find("map|get|lost", "looking up a child does not return it", f"reader.py:{f.node.lineno}", show(miss)[:200])
                    else:
                        rep.ok()
    r = run_method("values", o.cls)
    if r is not None and r[0] is not None:
        v, st2, ev, imp, f = r
        while v.op == "call" and v.a[0] in ("list", "tuple", "iter") and len(v.a) == 2:
            v = v.a[1]
        if v.op == "mcall" and v.a[1] == "values" and is_self_attr(v.a[0]) or v.op == "dictview":
            rep.ok()
        elif v.op == "slice" or v.op == "obj" and any(drop_loops(g2) is not TRUE for g2, _ in st2.heap[v].items or ()):
            rep.find("map|values|some", "the child map leaves out children that are in it", f"reader.py:{f.node.lineno}", show(v)[:100])
        else:
            rep.skip(f"values of the child map: {show(v)[:80]}")
    if init_true and not [x for x in flags if x not in init_true]:
        # a flag that starts true must be cleared by a lookup; decided above
        rep.count("inverted flag")
    return flags, init_true


def result_leaves(v, g=TRUE):
    if v is None:
        return
    if v.op == "phi":
        yield from result_leaves(v.a[1], conj(g, v.a[0]))
        yield from result_leaves(v.a[2], conj(g, neg(v.a[0])))
    else:
        yield g, v


def memory(rep, u, flat):
    """(D) the kinds reported before: nothing else is remembered as reported"""
    sets = {a.a[1] for g, e in flat if is_report(e) for a in leaves(g) if a.op == "in" and isinstance(a.a[1], T)
            and is_self_attr(a.a[1])}
    for g, e in flat:
        if e.kind == "mcall" and e.data[0] in sets:
            rep.count("records of reported kinds")
            what = [y for y in deep(e.data[2])]
            if e.data[1] in ("add", "append") and len(what) == 1 and what[0].op == "attr" and what[0].a[1] == "tag":
                rep.ok()
                continue
            rep.find(f"memory|{e.data[1]}", f"kinds are remembered as reported that were not: {e.data[1]} "
                     f"{show(what[0])[:60] if what else ''}", f"reader.py:{e.line}")


def run(s, rep):
    ra = s.reader
    for f, v in ra.init_entries.items():
        if v is sym("warn_on_unprocessed_element"):
            SWITCH.add(f)
    bookkeeping(rep, s)
    nm = 0
    tags = {}
    for u in ra.units.values():
        for _, e in u.flat():
            if e.kind == "runit":
                x = e.data[1]
                for y in [x] + [z for z in walk(x) if z.op == "children"][:1]:
                    if y.op in ("child", "children") and y.a[1] != "*":
                        tags[e.data[0][0]] = y.a[1]
                        break
    roots = list(root_units(ra))
    rep.count("methods on the root element", len(roots))
    for u in [*ra.units.values(), *roots]:
        if not u.done:
            continue
        u.ra_tags = tags
        flat = list(u.flat())
        nm += len({e.data[0] for _, e in flat if e.kind == "cmap"})
        maps(rep, u, flat)
        by_path(rep, u, flat)
        memory(rep, u, flat)
        loops(rep, u, flat)
        first_child(rep, u, flat)
        lookups(rep, u, flat)
    rep.count("child maps", nm)
    rep.floor("child maps", nm, 80)
    rep.floor("lookups", rep.counts.get("lookups", 0), 600)
