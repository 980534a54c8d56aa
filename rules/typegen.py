"""
P17: the order and completeness of the generated C type definitions.

Four methods are summarised separately, each with the others opaque: the dependency trees, the order
in which a tree is walked, the selection of the types to define, and the definitions themselves. The
relation "the definition of a type mentions another type" is then compared with the edges of the
trees, per class of model type.
"""
from sa.terms import T, mk, C, NONE, TRUE, FALSE, attr, conj, disj, neg, walk, subst, show, is_const, cval
from sa.methods import MethodPolicy, MethodAnalysis, ME
from sa.ctor import leaves, param
from sa.program import ClassInfo
from rules.documents import Flows, Unclear, parts, part_of, strip, unclear

STEPS = ("gen_data_type_creation_order", "gen_type_dependency_trees", "get_type_creation_order", "create_from_element")


class GenPolicy(MethodPolicy):
    """One step at a time: the other steps, recursion and the XML library are opaque."""

    tables = True       # dictionaries of functions are followed per key

    def call(self, ip, f, selfterm, pos, kws, st, node):
        c = f.cls
        nested = len(ip.frames) >= 1
        if f.name in STEPS and nested or any(fr[0] is f for fr in ip.frames) \
                or c is not None and c.module.name.startswith("autosar.xml") and not f.name.startswith("__"):
            ip.emit("lib", f, selfterm, tuple(pos), tuple(sorted(kws.items())), node=node, st=st)
            return mk("mcall", selfterm or NONE, f.name, *pos, *[mk("kw", k, v) for k, v in sorted(kws.items())])
        return super().call(ip, f, selfterm, pos, kws, st, node)

    def mcall(self, ip, recv, name, pos, kws, st, node):
        """objects made by a factory of the C library are told apart"""
        r = recv
        while r.op in ("mcall", "attr"):
            r = r.a[0]
        if name != "__call__" and r.op in ("gconst", "ext") and not (is_const(r)):
            ip.emit("mcall", recv, name, tuple(pos), tuple(sorted(kws.items())), node=node, st=st)
            pos = [ip.snapshot(p, st) if p.op == "obj" else p for p in pos]
            kw = [mk("kw", k, ip.snapshot(v, st) if v.op == "obj" else v) for k, v in sorted(kws.items())]
            made = []
            if name == "sequence" or not pos and not kw:
                self.serial = getattr(self, "serial", 0) + 1
                made = [mk("kw", "#", C(self.serial))]
            return mk("mcall", recv, name, *pos, *kw, *made)
        return super().mcall(ip, recv, name, pos, kws, st, node)


def as_class(t, x, k):
    """the term for an object x of class k"""
    m = {}
    for y in walk(t):
        if y.op == "inst" and y.a[0] is x and y.a[1].op == "cls":
            m[y] = C(k.is_sub(y.a[1].a[0]))
        elif y.op == "eq" and any(z.op == "call" and z.a[0] == "type" and z.a[1] is x for z in y.a) \
                and any(z.op == "cls" for z in y.a):
            m[y] = C([z for z in y.a if z.op == "cls"][0].a[0] is k)
    return subst(t, m) if m else t


def part_in(t, src):
    """a proper part of src that t is made of"""
    for y in walk(t):
        if y.op == "slice" and strip(y.a[0]) is src and part_of(y):
            return y
    return None


def loops_of(g):
    if g.op == "or":
        s = [loops_of(d) for d in g.a]
        return [p for p in s[0] if all(p in x for x in s[1:])]
    return [p for p in parts(g) if p.op == "loop"]


def less(g, *lps):
    """the condition within these loops"""
    return subst(g, {p: TRUE for p in lps})


def only_loops(g):
    return all(p.op == "loop" for p in parts(g))


class Gen:
    def __init__(self, s, rep):
        self.s = s
        self.rep = rep
        self.prog = s.prog
        self.ma = MethodAnalysis(s.prog, s.ctors, GenPolicy)
        self.model = s.prog.cls("ImplementationModel")
        self.gen = s.prog.cls("TypeGenerator")
        self.base_type = s.prog.cls("BaseType", "autosar.model.element")
        base = s.prog.cls("DataType", "autosar.model.element")
        self.kinds = sorted((c for c in s.prog.classes if c.is_sub(base) and not any(
            d is not c and d.is_sub(c) for d in s.prog.classes)), key=lambda c: c.name)

    def method(self, cls, name):
        f = cls.lookup(name)
        if f is None:
            self.rep.skip(f"{cls.name}.{name} does not exist")
            return None
        r = self.ma.run(cls, f)
        if r.failed or r.value is None:
            self.rep.skip(f"{cls.name}.{name}: {r.failed or 'no result'}")
            return None
        return r

    # ------------------------------------------------------------ the trees
    def trees(self):
        self.deps = {}
        self.refused = {}
        r = self.method(self.model, "gen_type_dependency_trees")
        if r is None:
            return False
        at = "ImplementationModel.gen_type_dependency_trees"
        fl = Flows(r)
        src = attr(ME, "source_type_refs")
        self.rep.count("steps")
        for g, e in fl.flat:
            for p in loops_of(g):
                z = part_in(p.a[0], src)
                if z is not None:
                    self.rep.find("trees:some", f"dependency trees are made for a part of the requested types only: {show(z)[:120]}", at)
                    return False
        try:
            its = fl.local(r.value)
        except Unclear as ex:
            its = None
        if not its:
            self.rep.skip(f"{at}: the result is not recognised")
            return False
        its = [(g, v) for g, k, v in its if g is not FALSE]
        if len(its) != 1:
            self.rep.skip(f"{at}: {len(its)} kinds of trees")
            return False
        g, node = its[0]
        data, kids = None, None
        for g2, e in fl.flat:
            if e.kind == "setattr" and e.data[0] is node:
                v = e.data[2]
                o = r.heap.get(v)
                if o is not None and o.kind == "list":
                    kids = v
                    self.kids_attr = e.data[1]
                elif any(x.op == "elem" and strip(x.a[0]) is src for x in walk(v)):
                    data = v
                    self.data_attr = e.data[1]
        if data is None or kids is None:
            self.rep.skip(f"{at}: the node of a tree is not recognised")
            return False
        lp = [p for p in loops_of(g) if strip(p.a[0]) is src]
        extra = parts(less(g, *lp))
        if lp and extra and not any(unclear(p) for p in extra):
            self.rep.find("trees:some", "dependency trees are made for some of the requested types only: "
                          + show(conj(*extra))[:160], at)
            return False
        if not lp or extra:
            self.rep.skip(f"{at}: a tree is made when {show(g)[:120]}")
            return False
        for g2, e in fl.flat:
            if e.kind in ("break", "leave") and strip(e.data[0]) is src:
                self.rep.find("trees:early", f"not every requested type gets a tree: the loop ends when {show(e.data[1])[:160]}", at)
                return False
        self.rep.ok()
        self.D = data
        edges = []
        for kind, g2, x, _ in fl.made.get(kids, ()):
            if kind in ("append", "insert"):
                edges.append((g2, x[-1]))
            elif kind == "extend":
                try:
                    sub = fl.local(x[0])
                except Unclear:
                    sub = None
                if sub is None:
                    self.rep.skip(f"{at}: children {show(x[0])[:100]}")
                    return False
                edges += [(conj(g2, a), v) for a, _, v in sub]
            else:
                self.rep.skip(f"{at}: children changed by {kind}")
                return False
        flat = []
        for g2, v in edges:
            for g3, w in leaves(v, g2):
                if g3 is not FALSE:
                    flat.append((g3, w))
        for k in self.kinds:
            self.rep.count("kinds of types")
            ds = []
            for g2, v in flat:
                gk = as_class(less(g2, *lp), data, k)
                if gk is FALSE:
                    continue
                if v.op == "obj":
                    y = self.leaf(fl, r, v, data, k)
                    if y is None:
                        self.rep.skip(f"{at}: child {show(v)[:100]}")
                        return False
                    if y is FALSE:
                        self.rep.find(f"trees:{k.name}:shallow", f"the tree of a type of class {k.name} ends at its first dependency", at)
                        return False
                    ds.append((gk, as_class(y, data, k)))
                    continue
                if v.op != "mcall" or len(v.a) < 3 or not any(x is data for x in walk(v)):
                    self.rep.skip(f"{at}: child {show(v)[:100]}")
                    return False
                ds.append((gk, as_class(v.a[2], data, k)))
            self.deps[k] = ds
            no = FALSE
            for g2, e in fl.flat:
                if e.kind == "raise":
                    no = disj(no, as_class(less(g2, *lp), data, k))
            self.refused[k] = no
        return True

    def leaf(self, fl, r, node, data, k):
        """the type of a node without children; FALSE: a type that can have children"""
        y = None
        for g, e in fl.flat:
            if e.kind == "setattr" and e.data[0] is node:
                if e.data[1] == self.data_attr:
                    y = e.data[2]
                elif e.data[1] == self.kids_attr and (fl.made.get(e.data[2]) or r.heap.get(e.data[2]) is None or r.heap[e.data[2]].items):
                    return None
        if y is None or y.op != "attr":
            return None
        if y.a[0] is data:
            ts = self.s.ctors.attr_type(k, y.a[1]) or set()
            ts = {t for t in ts if t != "None"}
            if ts and all(t is self.base_type for t in ts):
                return y
        ts = {c for c in self.kinds if c.lookup("__init__") is not None} - {self.base_type}
        return FALSE if ts and y.a[1] != "base_type" else None

    # ------------------------------------------------------------ the walk
    def walk(self):
        r = self.method(self.model, "get_type_creation_order")
        if r is None:
            return
        self.rep.count("steps")
        at = "ImplementationModel.get_type_creation_order"
        v = r.value
        back = False
        while True:
            if v.op == "call" and v.a[0] == "reversed" and len(v.a) == 2:
                back = not back
                v = v.a[1]
            elif v.op == "call" and v.a[0] in ("list", "iter", "tuple") and len(v.a) == 2:
                v = v.a[1]
            elif v.op == "slice" and v.a[1] is NONE and v.a[2] is NONE and len(v.a) > 3 and v.a[3] is C(-1):
                back = not back
                v = v.a[0]
            else:
                break
        evs = r.flat()
        root = param("root")
        ps = [p for p in self.model.lookup("get_type_creation_order").pos if p != "self"]
        if len(ps) == 1:
            root = param(ps[0])
        loops = [e.data[0] for g, e in evs if e.kind == "while"]
        if not loops or len(set(loops)) != 1:
            self.rep.skip(f"{at}: the walk is not a loop over a work list")
            return
        lp = mk("loop", loops[0])
        calls = []            # (guard, container, operation, arguments)
        for g, e in evs:
            if e.kind in ("mcall", "listop"):
                calls.append((g, e.data[0], e.data[1], e.data[2]))
        pops = [c for c in calls if c[2] in ("popleft", "pop") and lp in loops_of(c[0])]
        if len(pops) != 1:
            self.rep.skip(f"{at}: {len(pops)} removals from the work list")
            return
        q = pops[0][1]
        nodes = {x for c in calls for y in c[3] for x in walk(y)
                 if x.op == "mcall" and x.a[0] is q and x.a[1] == pops[0][2]}
        if r.heap.get(q) is not None:
            nodes = self.list_pops(q, calls)
        if len(nodes) != 1:
            self.rep.skip(f"{at}: the removed node is not recognised")
            return
        node = nodes.pop()
        for g, e in evs:
            if e.kind in ("break", "leave") and e.data[0] is loops[0] and not self.is_empty(e.data[1], q):
                if unclear(e.data[1]):
                    self.rep.skip(f"{at}: the loop ends when {show(e.data[1])[:120]}")
                else:
                    self.rep.find("walk:early", f"the walk of a tree stops when {show(e.data[1])[:160]}", at)
                return
            if e.kind == "while" and not (e.data[1] is TRUE or self.is_empty(neg(e.data[1]), q)):
                self.rep.skip(f"{at}: the loop runs while {show(e.data[1])[:120]}")
                return
        # the result
        base = v
        if v.op == "snap":
            hits = [gi for gi in v.a[2:] if gi.a[1] is node]
            if v.a[1] is not NONE or len(hits) != 1 or len(v.a) != 3:
                self.rep.skip(f"{at}: the result is not recognised")
                return
            puts = [(c[0], c[2]) for c in calls if c[1] is not q and node in c[3]]
        else:
            puts = [(c[0], c[2]) for c in calls if c[1] is v and node in c[3]]
        if not puts:
            self.rep.skip(f"{at}: the visited nodes are not collected")
            return
        rev = [1 for c in calls if c[2] == "reverse"]
        if len(puts) != 1 or len(rev) > 1:
            self.rep.skip(f"{at}: {len(puts)} ways to collect a node")
            return
        g, how = puts[0]
        if how in ("insert", "appendleft"):
            back = not back
        if rev:
            back = not back
        extra = parts(less(g, lp))
        if extra:
            self.judge(at, "walk:some", "nodes of a tree are left out unless", extra)
        else:
            self.rep.ok()
        if back:
            self.rep.ok()
        else:
            self.rep.find("walk:order", "a node comes before the nodes it depends on", at)
        kids = attr(node, self.kids_attr)
        first = self.start(q, r, root)
        if first is None:
            self.rep.skip(f"{at}: the initial work list")
        elif first:
            self.rep.ok()
        else:
            self.rep.find("walk:root", "the walk does not start at the root", at)
        adds = []
        for c in calls:
            if c[1] is not q or c[2] in ("popleft", "pop"):
                continue
            if c[2] in ("append", "appendleft", "insert") and any(strip(x.a[0]) is kids for x in walk(c[3][-1]) if x.op == "elem"):
                if c[3][-1].op != "elem":
                    self.rep.skip(f"{at}: {show(c[3][-1])[:100]} is added to the work list")
                    return
                ex = [p for p in parts(c[0]) if p is not lp and not (p.op == "loop" and strip(p.a[0]) is kids)]
                adds.append(ex)
            elif c[2] in ("extend", "extendleft") and strip(c[3][0]) is kids:
                adds.append([p for p in parts(c[0]) if p is not lp])
            elif c[2] in ("extend", "extendleft", "append", "appendleft", "insert") and any(x is kids for y in c[3] for x in walk(y)):
                z = [x for y in c[3] for x in walk(y) if x.op == "slice" and strip(x.a[0]) is kids]
                if z:
                    self.rep.find("walk:children", f"only some children of a node are visited: {show(z[0])[:120]}", at)
                else:
                    self.rep.skip(f"{at}: {show(c[3][-1])[:100]} is added to the work list")
                return
        if not adds:
            if any(x is kids for g, e in evs for d in e.data if isinstance(d, tuple) for y in d if isinstance(y, T) for x in walk(y)):
                self.rep.skip(f"{at}: the children of a node are used in an unknown way")
            else:
                self.rep.find("walk:children", "the children of a node are not visited", at)
            return
        ex = adds[0] if len(adds) == 1 else [disj(*[conj(*x) for x in adds])]
        ex = [x for x in ex if x is not TRUE and not self.has(x, kids)]
        if ex:
            self.judge(at, "walk:children", "children of a node are visited only when", ex)
        else:
            self.rep.ok()
        for g, e in evs:
            if e.kind in ("break", "leave") and strip(e.data[0]) is kids:
                self.judge(at, "walk:children-early", "the loop over the children of a node ends when", [e.data[1]])

    def list_pops(self, q, calls):
        """terms for the element removed from a local list"""
        res = set()
        for c in calls:
            if c[1] is not q and c[2] in ("append", "insert", "appendleft"):
                x = c[3][-1]
                if x.op != "obj" and x.op != "elem":
                    res.add(x)
        return res

    @staticmethod
    def is_empty(c, q):
        """c says that the container is empty"""
        while c.op == "not" and c.a[0].op == "not":
            c = c.a[0].a[0]
        if c.op == "not":
            y = c.a[0]
            if y.op == "truthy":
                y = y.a[0]
                return y is q or y.op == "snap" or y.op == "call" and y.a[0] == "len" and (y.a[1] is q or y.a[1].op == "snap")
            if y.op == "lt" and y.a[0] is C(0):
                z = y.a[1]
                return z.op == "call" and z.a[0] == "len" and z.a[1] is q
        if c.op == "eq" and C(0) in c.a:
            z = c.a[0] if c.a[1] is C(0) else c.a[1]
            return z.op == "call" and z.a[0] == "len" and z.a[1] is q
        return False

    @staticmethod
    def has(c, kids):
        """a test that only skips a node without children"""
        return c.op in ("truthy", "nn") and c.a[0] is kids

    @staticmethod
    def start(q, r, root):
        if q.op == "call" and len(q.a) > 1:
            x = q.a[1]
            if x.op == "tup":
                return root in x.a
            return any(y is root for y in walk(x))
        o = r.heap.get(q)
        for g, e in r.flat():
            if e.kind in ("mcall", "listop") and e.data[0] is q and g is TRUE and root in e.data[2]:
                return True
        if o is not None:
            return True if any(v is root for _, v in o.items) else None
        return False

    def judge(self, at, key, text, ps):
        if any(unclear(p) or self.identity(p) or p.op == "or" for p in ps):
            self.rep.skip(f"{at}: {text} {show(conj(*ps))[:120]}")
        else:
            self.rep.find(key, f"{text} {show(conj(*ps))[:160]}", at)

    @staticmethod
    def identity(p):
        """a membership test of a node itself: nodes are made once per occurrence"""
        if p.op == "not":
            p = p.a[0]
        return p.op == "in" and (p.a[0].op == "elem" or p.a[0].op == "mcall")

    # ------------------------------------------------------------ the selection
    def selection(self):
        r = self.method(self.gen, "gen_data_type_creation_order")
        if r is None:
            return
        self.rep.count("steps")
        at = "TypeGenerator.gen_data_type_creation_order"
        fl = Flows(r)
        trees = [x for g, e in fl.flat for x in walk(g) if x.op == "loop" and strip(x.a[0]).op == "mcall"
                 and strip(x.a[0]).a[1] == "gen_type_dependency_trees"]
        order = [x for g, e in fl.flat for x in walk(g) if x.op == "loop" and strip(x.a[0]).op == "mcall"
                 and strip(x.a[0]).a[1] == "get_type_creation_order"]
        cut = [x for g, e in fl.flat for x in walk(g) if x.op == "loop" and x.a[0].op == "slice" and strip(x.a[0].a[0]).op == "mcall"
               and strip(x.a[0].a[0]).a[1] in STEPS]
        if cut:
            self.rep.find("selection:part", f"only a part of the types is looked at: {show(cut[0])[:120]}", at)
            return
        for g, e in fl.flat:
            for p in loops_of(g):
                for y in walk(p.a[0]):
                    if y.op == "call" and y.a[0] in ("reversed", "sorted", "set", "frozenset") and len(y.a) > 1 and any(
                            z.op == "mcall" and z.a[1] == "get_type_creation_order" for z in walk(y.a[1])):
                        self.rep.find("selection:order", f"the order of a tree is changed by {y.a[0]}", at)
                        return
        if not trees or not order:
            self.rep.skip(f"{at}: the loops over trees and nodes are not recognised")
            return
        trees, order = trees[0], order[0]
        if order.a[0].op == "call" and order.a[0].a[0] in ("reversed", "sorted", "set"):
            self.rep.find("selection:order", f"the order of a tree is changed by {order.a[0].a[0]}", at)
            return
        if strip(order.a[0]).a[2] is not mk("elem", trees.a[0]) and strip(order.a[0]).a[2] is not mk("elem", strip(trees.a[0])):
            self.rep.skip(f"{at}: the order of {show(strip(order.a[0]).a[2])[:100]}")
            return
        node = mk("elem", strip(order.a[0]))
        x = attr(node, getattr(self, "data_attr", "data"))
        v = r.value
        if v.op == "call" and v.a[0] in ("reversed", "sorted", "set"):
            self.rep.find("selection:order", f"the order of the types is changed by {v.a[0]}", at)
            return
        for g, e in fl.flat:
            if e.kind == "listop" and (e.data[0] is v or v.op == "snap") and e.data[1] in ("sort", "reverse"):
                self.rep.find("selection:order", f"the order of the types is changed by {e.data[1]}()", at)
                return
            if e.kind == "listop" and e.data[0] is v and e.data[1] == "insert":
                self.rep.find("selection:order", "types are put in front of the types found before", at)
                return
            if e.kind in ("break", "leave") and e.data[0] in (trees.a[0], order.a[0]):
                self.judge(at, "selection:early", "a loop over the types ends when", [e.data[1]])
                return
        try:
            its = [(g2, ys[0]) for g, _, y in fl.local(v) or () if g is not FALSE for g2, ys in fl.expand(g, [y])]
        except Unclear:
            its = []
        if not its or any(y is not x for _, y in its):
            self.rep.skip(f"{at}: the result is not recognised: {[show(y)[:60] for _, y in its]}")
            return
        have = disj(*[less(g, trees, order) for g, _ in its])
        have = subst(have, {trees: TRUE, order: TRUE})
        # once
        member = {y for y in walk(have) if y.op == "in"}
        keys = (attr(x, "ref"), x, mk("call", "id", x), mk("call", "str", attr(x, "ref")))
        good = [m for m in member if m.a[0] in keys]
        if not good:
            if member or unclear(have):
                self.rep.skip(f"{at}: how a type already defined is recognised")
            else:
                self.rep.find("selection:twice", "a type is defined again for every type that uses it", at)
            return
        if len(member) != 1:
            self.rep.skip(f"{at}: several membership tests")
            return
        m = good[0]
        cont = m.a[1]
        born = r.ip.born.get(cont, ()) if cont.op == "obj" else ()
        if born:
            self.rep.find("selection:twice", "the types already defined are forgotten for each of "
                          + show(sorted(born, key=show)[0].a[0])[:100], at)
            return
        marks = FALSE
        for g, e in fl.flat:
            if e.kind in ("listop", "setitem"):
                key = e.data[2][-1] if e.kind == "listop" and e.data[1] in ("add", "append") and e.data[2] else \
                    e.data[1] if e.kind == "setitem" else None
                if key is m.a[0] and (e.data[0] is cont or cont.op in ("snap", "obj") or cont.op == "loopvar"):
                    marks = disj(marks, less(g, trees, order))
        marks = subst(marks, {trees: TRUE, order: TRUE, m: FALSE})
        sel = subst(have, {m: FALSE})
        if subst(have, {m: TRUE}) is not FALSE:
            self.rep.find("selection:twice", f"a type already defined is defined again when {show(subst(have, {m: TRUE}))[:120]}", at)
            return
        if conj(sel, neg(marks)) is not FALSE:
            if unclear(conj(sel, neg(marks))):
                self.rep.skip(f"{at}: when a type counts as defined")
            else:
                self.rep.find("selection:mark", f"a defined type is not remembered when {show(conj(sel, neg(marks)))[:160]}", at)
            return
        self.rep.ok()
        # which types
        te = attr(x, "type_emitter")
        nat = attr(x, "native_declaration")
        for k in self.kinds:
            if self.deps.get(k) is None:
                continue
            hk = as_class(sel, x, k)
            if k.is_sub(self.prog.cls("ImplementationType", "autosar.model.element")):
                atoms = [y for y in walk(hk) if y.op == "eq" and any(z.op == "mcall" and z.a[1] in ("upper", "casefold", "lower")
                                                                     and z.a[0] is te for z in y.a)]
                rte = atoms[0] if len(set(atoms)) == 1 else None
                if rte is not None and {str(cval(z)).upper() for z in rte.a if is_const(z)} != {"RTE"}:
                    self.rep.find(f"selection:{k.name}:emitter", f"types of class {k.name} are compared with {show(rte)[:80]}", at)
                    continue
                if rte is None:
                    miss = subst(hk, {mk("nn", te): FALSE, mk("truthy", te): FALSE})
                    if miss is FALSE:
                        self.rep.find(f"selection:{k.name}", f"types of class {k.name} without type emitter are never defined", at)
                    elif hk is TRUE:
                        self.rep.find(f"selection:{k.name}:emitter", f"types of class {k.name} are defined for every type emitter", at)
                    else:
                        self.rep.skip(f"{at}: {k.name} is defined when {show(hk)[:120]}")
                    continue
                want = disj(neg(mk("nn", te)), rte)
                alt = disj(neg(mk("truthy", te)), rte)
            else:
                want = mk("truthy", nat)
                alt = mk("nn", nat)
            if hk is want or hk is alt:
                self.rep.ok()
                continue
            known = {te: mk("sym", "emitter"), nat: mk("sym", "native")}
            if k.is_sub(self.prog.cls("ImplementationType", "autosar.model.element")):
                known = {rte: mk("truthy", mk("sym", "rte")), **known}
            if any(y.op in ("eq", "in", "mcall", "call") for y in walk(subst(hk, known))) or unclear(hk):
                self.rep.skip(f"{at}: {k.name} is defined when {show(hk)[:120]}")
                continue
            a, b = conj(want, neg(hk)), conj(hk, neg(want), neg(alt))
            if a is not FALSE and conj(alt, neg(hk)) is not FALSE:
                self.rep.find(f"selection:{k.name}", f"types of class {k.name} are left out when {show(a)[:160]}", at)
            elif b is not FALSE:
                self.rep.find(f"selection:{k.name}", f"types of class {k.name} are defined also when {show(b)[:160]}", at)
            else:
                self.rep.ok()

    # ------------------------------------------------------------ the definitions
    def outputs(self, name):
        """(guard, call) of every statement that reaches the writer"""
        r = self.method(self.gen, name)
        if r is None:
            return None
        evs = r.flat()
        sinks = [e for g, e in evs if e.kind == "mcall" and e.data[1] in ("write_str", "write_file")]
        if len(sinks) != 1 or not sinks[0].data[2]:
            self.rep.skip(f"TypeGenerator.{name}: {len(sinks)} calls of the C writer")
            return None
        sg = [g for g, e in evs if e is sinks[0]][0]
        if sg is not TRUE:
            self.rep.find(f"{name}:sink", f"{name} writes only when {show(sg)[:120]}", f"TypeGenerator.{name}")
            return None
        live = {sinks[0].data[2][0]}
        res = []
        for _ in range(12):
            n = len(live)
            for g, e in evs:
                if e.kind in ("mcall", "listop") and e.data[1] in ("append", "extend", "insert") and e.data[0] in live and e.data[2]:
                    for x in walk(e.data[2][-1]):
                        if x.op in ("mcall", "obj"):
                            live.add(x)
            if len(live) == n:
                break
        for g, e in evs:
            if e.kind in ("mcall", "listop") and e.data[1] in ("append", "extend", "insert") and e.data[0] in live and e.data[2]:
                res.append((g, e.data[2][-1], e))
        return r, evs, res

    def definitions(self, name):
        got = self.outputs(name)
        if got is None:
            return
        r, evs, out = got
        self.rep.count("steps")
        at = f"TypeGenerator.{name}"
        src = [x for g, t, e in out for x in walk(g) if x.op == "loop" and strip(x.a[0]).op == "mcall"
               and strip(x.a[0]).a[1] == "gen_data_type_creation_order"]
        cut = [x for g, t, e in out for x in walk(g) if x.op == "loop" and strip(x.a[0]).op == "slice"
               and any(y.op == "mcall" and y.a[1] == "gen_data_type_creation_order" for y in walk(x))]
        if cut:
            self.rep.find(f"{name}:part", f"{name} defines a part of the types only: {show(cut[0])[:100]}", at)
            return
        if not src:
            if any(e.kind == "lib" and e.data[0].name == "gen_data_type_creation_order" for g, e in evs):
                loops = [x for g, e in evs for x in walk(g) if x.op == "loop" and strip(x.a[0]).op == "mcall"
                         and strip(x.a[0]).a[1] == "gen_data_type_creation_order"]
                if loops:
                    self.rep.find(f"{name}:lost", f"the definitions made in {name} do not reach the C writer", at)
                else:
                    self.rep.skip(f"{at}: the loop over the types")
            else:
                self.rep.find(f"{name}:none", f"{name} writes no type definitions", at)
            return
        lp = src[0]
        if lp.a[0].op == "call" and lp.a[0].a[0] in ("reversed", "sorted", "set"):
            self.rep.find(f"{name}:order", f"{name} changes the order of the types ({lp.a[0].a[0]})", at)
            return
        for g, e in evs:
            if e.kind in ("break", "leave") and strip(e.data[0]) is strip(lp.a[0]):
                self.judge(at, f"{name}:early", "the loop over the types ends when", [e.data[1]])
                return
        x = mk("elem", strip(lp.a[0]))
        defs = {}
        ment = {}
        for g, t, e in out:
            if e.data[1] == "insert" and lp in loops_of(g):
                self.rep.find(f"{name}:order", "a definition is put in front of the definitions made before", at)
                return
        # every typedef in a statement that reaches the writer
        reach = {y for g, t, e in out for y in walk(t) if y.op == "mcall"}
        names = attr(x, "name")
        for k in self.kinds:
            if k not in self.deps:
                continue
            tds = []
            for g, t, e in out:
                gk = as_class(g, x, k)
                if gk is FALSE or lp not in loops_of(gk):
                    continue
                t = as_class(t, x, k)
                for g2, v in leaves(t, gk):
                    if g2 is FALSE:
                        continue
                    for y in walk(v):
                        if y.op == "mcall" and y.a[1] == "typedef" and len(y.a) >= 4:
                            tds.append((less(g2, lp), y))
            fail = FALSE
            for g, e in evs:
                if e.kind == "raise" and lp in loops_of(g):
                    fail = disj(fail, as_class(less(g, lp), x, k))
            self.rep.count("definitions")
            self.defined(at, name, k, x, lp, tds, fail, names)
            self.mentions(at, name, k, x, lp, evs, reach)

    def defined(self, at, name, k, x, lp, tds, fail, names):
        rep = self.rep
        if self.refused.get(k) is TRUE:
            rep.ok()
            return
        if not tds:
            if fail is TRUE:
                rep.ok()
            else:
                rep.find(f"{name}:{k.name}:undefined", f"a type of class {k.name} gets no definition"
                         + (f" unless it is refused ({show(fail)[:100]})" if fail is not FALSE else ""), at)
            return
        for g, y in tds:
            for g2, n in leaves(y.a[2], g):
                if g2 is not FALSE and n is not names:
                    if n.op in ("attr", "fstr", "const") and not unclear(n):
                        rep.find(f"{name}:{k.name}:name", f"a type of class {k.name} is defined as {show(n)[:80]}", at)
                    else:
                        rep.skip(f"{at}: {k.name} is defined as {show(n)[:80]}")
                    return
        for i, (g, y) in enumerate(tds):
            for g2, y2 in tds[:i]:
                if y2 is not y and conj(g, g2) is not FALSE or y2 is y and conj(g, g2) is not FALSE:
                    rep.find(f"{name}:{k.name}:twice", f"a type of class {k.name} is defined twice", at)
                    return
        allg = disj(*[g for g, _ in tds])
        inner = loops_of(allg)
        if inner:
            rep.find(f"{name}:{k.name}:twice", f"a type of class {k.name} is defined for each of {show(inner[0].a[0])[:80]}", at)
            return
        gap = conj(neg(allg), neg(fail))
        if gap is FALSE:
            rep.ok()
        elif unclear(gap):
            rep.skip(f"{at}: {k.name} is defined when {show(allg)[:120]}")
        else:
            rep.find(f"{name}:{k.name}:undefined", f"a type of class {k.name} gets no definition when {show(gap)[:160]}", at)

    def mentions(self, at, name, k, x, lp, evs, reach):
        """the types a definition mentions are children in the tree"""
        rep = self.rep
        members = attr(x, "sub_elements")
        deps = []
        for g, y in self.deps[k]:
            m = {self.D: x}
            deps.append((subst(g, m), subst(y, m)))
        for g, e in evs:
            if e.kind != "mcall" or lp not in loops_of(g):
                continue
            gk = as_class(less(g, lp), x, k)
            if gk is FALSE:
                continue
            call = (e.data[1],) + tuple(e.data[2]) + tuple(v for _, v in e.data[3])
            for arg in call[1:]:
                for g2, v in self.direct(as_class(arg, x, k), gk):
                    if g2 is FALSE or v.op != "attr" or v.a[1] not in ("name", "symbol_name"):
                        continue
                    y = v.a[0]
                    if y is x or y.op in ("elem", "idx", "sub", "item", "index"):
                        continue
                    if not any(z is x for z in walk(y)):
                        continue
                    rep.count("mentioned types")
                    native = mk("truthy", attr(y, "native_declaration"))
                    if conj(g2, native) is FALSE or conj(g2, mk("nn", attr(y, "native_declaration"))) is FALSE:
                        rep.ok()     # a base type that is not generated
                        continue
                    hit = [gd for gd, yd in deps if yd is y]
                    if hit and conj(g2, neg(disj(*hit))) is FALSE:
                        rep.ok()
                    elif unclear(y) or unclear(g2):
                        rep.skip(f"{at}: {k.name} mentions {show(y)[:100]}")
                    else:
                        rep.find(f"{name}:{k.name}:{show(y)[-40:]}", f"the definition of a type of class {k.name} mentions "
                                 f"{show(subst(y, {x: attr(ME, 'type')}))[:100]}, which the dependency tree lacks"
                                 + (f" when {show(g2)[:120]}" if g2 is not TRUE else ""), at)

    @staticmethod
    def direct(t, g):
        """what an argument of a call of the C library says itself, not the calls inside it"""
        todo = [(g, t)]
        while todo:
            g, t = todo.pop()
            if t.op == "phi":
                todo.append((conj(g, t.a[0]), t.a[1]))
                todo.append((conj(g, neg(t.a[0])), t.a[2]))
            elif t.op == "mcall":
                continue
            elif t.op == "attr":
                yield g, t
            elif t.op in ("fstr", "join", "concat", "tup", "snap"):
                for y in t.a:
                    if isinstance(y, T):
                        todo.append((g, y))
            else:
                yield g, t


def run(s, rep):
    g = Gen(s, rep)
    if g.trees():
        g.walk()
        g.selection()
        for n in ("write_type_defs_str", "write_type_header_str", "write_type_header"):
            g.definitions(n)
