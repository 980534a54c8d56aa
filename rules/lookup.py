"""
Looking something up by name or path gives the contained element that bears the name.

The result of every lookup method, as a case distinction over its arguments and the collections of its
object, is compared with what the names say: each result bears the name asked for, nothing is returned
only where no element of the searched collections bears it, and paths are continued in the element found.
"""
from sa.terms import T, mk, C, NONE, TRUE, FALSE, is_const, cval, attr, conj, neg, disj, subst, walk, show, implies, is_cond, phi
from sa.methods import MethodAnalysis, MethodPolicy, ME
from sa.ctor import param, leaves

FOLLOW = ("find", "make_packages")
KINDS_R = ("RequirePortPrototype", "PRPortPrototype")
KINDS_P = ("ProvidePortPrototype", "PRPortPrototype")

# class, method, key argument, form of the key, searched collections, kinds found
LISTS = (
    ("ModeDeclarationGroup", "find", 0, "name", ("mode_declarations", "mode_transitions"), None),
    ("ImplementationDataType", "find", 0, "name", ("sub_elements",), None),
    ("SwComponentType", "find", 0, "path", ("ports",), None),
    ("CompositionSwComponentType", "find", 0, "path", ("components", "connectors", "ports"), None),
    ("SwComponentType", "find_r_port", 0, "name", ("ports",), KINDS_R),
    ("SwComponentType", "find_p_port", 0, "name", ("ports",), KINDS_P),
    ("SwcInternalBehavior", "find_runnable", 0, "name", ("runnables",), None),
    ("SwComponentType", "get_data_element_in_port", 1, "name", ("data_elements",), None),
    ("SwComponentType", "get_operation_in_port", 1, "name", ("operations",), None),
)
INDEX = (("Package", "_"), ("PackageCollection", "_"))


class LookupPolicy(MethodPolicy):
    def call(self, ip, f, selfterm, pos, kws, st, node):
        if f.cls is not None and selfterm is not None and f.name == "root_collection":
            return mk("mcall", selfterm, f.name)
        if f.cls is not None and f.name in FOLLOW and selfterm is not None and selfterm is not ME:
            args = list(pos) + [kws[k] for k in sorted(kws)]
            v = mk("mcall", selfterm, f.name, *[ip.refine(a, st) for a in args])
            ip.emit("follow", v, node=node, st=st)
            return v
        return None


def alternatives(v, g=TRUE):
    for lg, x in leaves(v, g):
        if lg is not FALSE:
            yield lg, x


def build(op, a):
    if op == "and":
        return conj(*a)
    if op == "or":
        return disj(*a)
    if op == "not":
        return neg(a[0])
    if op == "phi":
        return phi(*a)
    return mk(op, *a)


def alive(r, p):
    """the method does not fail"""
    return conj(*[neg(p.norm(g)) for g, e in r.flat() if e.kind == "raise"])


class Path:
    """a path argument: the forms of its text without a leading slash, its first segment and the rest"""

    def __init__(self, p, whole, slash=False):
        self.p = p
        self.whole = whole
        self.slash = slash                              # whether the text begins with a slash
        self.first = mk("sym", "first segment")
        self.rest = mk("sym", "rest of the path")
        self.core = mk("sym", "path")                   # without a leading slash
        self.text = mk("sym", "path with slash") if slash else self.core
        self.texts = {y for x in (p, self.text) for y in (x, attr(x, "value"), attr(x, "_value"), mk("call", "str", x))}

    def norm(self, t):
        memo = {}

        def go(x):
            if not isinstance(x, T):
                return tuple(go(y) for y in x) if isinstance(x, tuple) else x
            if x in memo:
                return memo[x]
            y = self.rewrite(build(x.op, [go(a) for a in x.a]))
            memo[x] = y
            return y
        return go(t)

    def rewrite(self, x):
        if x in self.texts:
            return self.text
        o = x.op
        if o == "inst" and x.a[0] in (self.p, self.text):
            return TRUE
        if o == "phi" and x.a[0] in (TRUE, FALSE):
            return x.a[1] if x.a[0] is TRUE else x.a[2]
        if o == "phi" and x.a[1] is x.a[2]:
            return x.a[1]
        if self.whole:
            return x
        if x == mk("truthy", self.text) and self.slash:
            return TRUE
        if o == "slice" and x.a[0] is self.text and self.slash and x.a[1] == C(1) and x.a[2] is NONE and x.a[3] is NONE:
            return self.core
        if o == "mcall" and x.a[0] in (self.text, self.core) and x.a[1] in ("lstrip", "removeprefix") and x.a[2:] == (C("/"),):
            return self.core
        if o == "truthy" and x.a[0].op == "mcall" and x.a[0].a[0] in (self.text, self.core) and x.a[0].a[1] == "startswith" \
                and x.a[0].a[2:] == (C("/"),):
            return TRUE if x.a[0].a[0] is self.text and self.slash else FALSE
        if o == "eq" and C("/") in x.a and any(
                y.op == "item" and y.a[1] == C(0) or y.op == "slice" and y.a[1] in (NONE, C(0)) and y.a[2] == C(1)
                for y in x.a if isinstance(y, T) and y.op in ("item", "slice") and y.a[0] in (self.text, self.core)):
            return TRUE if self.slash and any(y.a[0] is self.text for y in x.a if y.op in ("item", "slice")) else FALSE
        if o == "item" and isinstance(x.a[0], T) and x.a[0].op == "mcall" and x.a[0].a[0] is self.core and is_const(x.a[1]):
            m, i = x.a[0], cval(x.a[1])
            if m.a[1] == "partition" and m.a[2:] == (C("/"),):
                return {0: self.first, 2: self.rest}.get(i, x)
            if m.a[1] == "split" and m.a[2:3] == (C("/"),):
                if i == 0:
                    return self.first
                if i == 1 and (m.a[3:4] == (C(1),) or m.a[3:4] and m.a[3].op == "kw" and m.a[3].a[1] == C(1)):
                    return self.rest
        if o in ("lt", "le", "eq") and len(x.a) == 2:
            n = [y for y in x.a if isinstance(y, T) and y.op == "call" and y.a[0] == "len" and len(y.a) == 2 and self.splits(y.a[1])]
            k = [cval(y) for y in x.a if is_const(y)]
            if len(n) == 1 and len(k) == 1 and isinstance(k[0], int):
                ops = {"lt": lambda u, w: u < w, "le": lambda u, w: u <= w, "eq": lambda u, w: u == w}
                most = 2 if len(n[0].a[1].a) > 3 else 4
                r = [ops[o](*[i if y is n[0] else k[0] for y in x.a]) for i in range(1, most + 1)]
                if len(set(r[1:])) == 1:
                    more = mk("truthy", self.rest)
                    return (TRUE if r[0] else FALSE) if r[0] == r[1] else more if r[1] else neg(more)
        if o == "truthy" and x.a[0].op == "item" and x.a[0].a[1] == C(1) and x.a[0].a[0].op == "mcall" and x.a[0].a[0].a[0] is self.core \
                and x.a[0].a[0].a[1:] == ("partition", C("/")):
            return mk("truthy", self.rest)
        if o == "in" and x.a == (C("/"), self.core):
            return mk("truthy", self.rest)
        if o == "eq" and C("") in x.a and self.rest in x.a:
            return neg(mk("truthy", self.rest))
        return x

    def splits(self, m):
        return m.op == "mcall" and m.a[0] is self.core and m.a[1] in ("split",)


def bears(g, x, keys):
    """the guard says that x bears the name"""
    n = attr(x, "name")
    for y in walk(g):
        if y.op == "eq" and n in y.a and any(k in y.a for k in keys) and implies(g, y):
            return True
    return False


class Lookups:
    def __init__(self, s, rep):
        self.s = s
        self.rep = rep
        self.ma = MethodAnalysis(s.prog, s.ctors, LookupPolicy)

    def method(self, cn, fn):
        try:
            c = self.s.prog.cls(cn)
        except KeyError:
            c = None
        f = c.lookup(fn) if c is not None else None
        if f is None:
            self.rep.skip(f"{cn}.{fn} does not exist")
            return None, None, None
        r = self.ma.run(c, f)
        if r.failed or r.imprecise:
            self.rep.skip(f"{cn}.{fn}: {r.failed or r.imprecise[:2]}")
            return c, f, None
        return c, f, r

    def where(self, f):
        return f.where if hasattr(f, "where") else f.qual

    def lists(self):
        for cn, fn, pos, form, attrs, kinds in LISTS:
            c, f, r = self.method(cn, fn)
            if r is None:
                continue
            ps = [p for p in f.pos[1:]]
            if len(ps) <= pos:
                self.rep.skip(f"{cn}.{fn}: arguments")
                continue
            p = Path(param(ps[pos]), form == "name")
            keys = (p.core,) if form == "name" else (p.first,)
            name = f"{cn}.{fn}"
            self.rep.count("lookup methods")
            if r.value is None:
                self.rep.find(f"fails:{name}", f"{name} always fails", self.where(f))
                continue
            v = p.norm(r.value)
            self.one(name, f, r, p, v, keys, attrs, kinds)

    def one(self, name, f, r, p, v, keys, attrs, kinds):
        rep = self.rep
        alts = list(alternatives(v, alive(r, p)))
        srcs = {}
        for g, x in alts:
            for t in (g, x):
                for y in walk(t):
                    if y.op in ("loop", "elem") and isinstance(y.a[0], T) and y.a[0].op == "attr":
                        srcs.setdefault(y.a[0].a[1], set()).add(y.a[0])
        unknown = [x for g, x in alts if x is not NONE and not (
            x.op in ("elem", "item") and isinstance(x.a[0], T) and x.a[0].op == "attr")]
        if unknown:
            rep.skip(f"{name}: result {show(unknown[0])[:80]}")
            return
        kt = [mk("cls", self.s.prog.cls(k)) for k in kinds or ()]
        for g, x in alts:
            if x is NONE:
                continue
            if x.op == "item":
                # the only element, where no name is given
                n = mk("call", "len", x.a[0])
                one = [y for y in walk(g) if y.op == "eq" and set(y.a) == {n, C(1)} and implies(g, y)]
                facts = [e.data[0] for gg, e in r.flat() if e.kind == "raise"]
                if self.given(p, g) is False and (one or self.refused(r, p, n)):
                    rep.ok()
                else:
                    rep.find(f"other:{name}", f"{name} returns an element without looking at its name", self.where(f), show(g)[:200])
                del facts
                continue
            if not bears(g, x, keys):
                rep.find(f"other:{name}", f"{name} returns an element of {x.a[0].a[1]} that need not bear the name asked for",
                         self.where(f), show(g)[:200])
                continue
            if kinds and self.of_other_kind(g, x, kt):
                rep.find(f"kind:{name}", f"{name} returns elements of another kind", self.where(f), show(g)[:200])
                continue
            rep.ok()
        nones = [g for g, x in alts if x is NONE]
        for a in attrs:
            if a not in srcs:
                rep.find(f"unsearched:{name}:{a}", f"{name} does not search {a}", self.where(f))
                continue
            if len(srcs[a]) != 1:
                rep.skip(f"{name}: {a} of several objects")
                continue
            L = next(iter(srcs[a]))
            if not self.right_owner(name, L, f):
                rep.find(f"owner:{name}", f"{name} searches the {a} of another object: {show(L)[:80]}", self.where(f))
                continue
            e = mk("elem", L)
            eqs = [y for g, _ in alts for y in walk(g) if y.op == "eq" and attr(e, "name") in y.a and any(k in y.a for k in keys)]
            if not eqs:
                continue
            miss = False
            for k in kt or (None,):
                m = {q: TRUE for q in eqs}
                m[mk("loop", L)] = TRUE
                m[mk("truthy", p.core)] = TRUE
                for g in nones:
                    for y in walk(g):
                        if y.op == "inst" and y.a[0] is e:
                            m[y] = TRUE if y.a[1] is k or k is not None and y.a[1].op == "cls" and k.a[0].is_sub(y.a[1].a[0]) else FALSE
                    q = subst(g, m)
                    if q is not FALSE and not self.other_loop(q, L):
                        miss = True
            # leaving the loop before the element was seen
            for g, ev in r.flat():
                if ev.kind == "leave" and p.norm(ev.data[0]) is L:
                    c = p.norm(conj(g, ev.data[1]))
                    if c is not FALSE and not any(implies(c, q) for q in eqs):
                        miss = True
            if miss:
                rep.find(f"missed:{name}:{a}", f"{name} can overlook an element of {a} that bears the name", self.where(f))
            else:
                rep.ok()

    def other_loop(self, q, L):
        """another collection decides as well (an element found there is returned instead)"""
        return False

    def given(self, p, g):
        for y in walk(g):
            if y in (mk("truthy", p.core), mk("nn", p.core)):
                if implies(g, y):
                    return True
                if implies(g, neg(y)):
                    return False
            if y.op == "eq" and p.core in y.a and C("") in y.a and implies(g, y):
                return False
        return None

    def refused(self, r, p, n):
        for g, e in r.flat():
            if e.kind == "raise":
                q = p.norm(g)
                if any(y.op in ("eq", "lt", "le") and n in y.a for y in walk(q)):
                    return True
        return False

    def of_other_kind(self, g, x, kt):
        m = {y: FALSE for y in walk(g) if y.op == "inst" and y.a[0] is x and y.a[1] in kt}
        return not m or subst(g, m) is not FALSE

    def right_owner(self, name, L, f):
        o = L.a[0]
        if o is ME:
            return not name.split(".")[1].startswith("get_")
        if not name.split(".")[1].startswith("get_"):
            return False
        port = param(f.pos[1])
        return o.op == "mcall" and o.a[1] == "find" and o.a[2:] == (attr(port, "port_interface_ref"),) \
            and o.a[0].op == "mcall" and o.a[0].a[1] == "root_collection" and o.a[0].a[0] is port

    # ------------------------------------------------------------ indexed containers
    def index_of(self, t, key):
        """the lookup of the key in a dictionary of this object"""
        if t.op == "mcall" and t.a[1] == "get" and t.a[0].op == "attr" and t.a[0].a[0] is ME and t.a[2] is key and (
                len(t.a) == 3 or t.a[3] is NONE):
            return t.a[0]
        if t.op in ("item", "dget") and isinstance(t.a[0], T) and t.a[0].op == "attr" and t.a[0].a[0] is ME and t.a[1] is key:
            return t.a[0]
        return None

    def indexed(self):
        for cn, _ in INDEX:
            for fn in ("find", "make_packages"):
                c, f, r = self.method(cn, fn)
                if r is None:
                    continue
                name = f"{cn}.{fn}"
                self.rep.count("lookup methods")
                arg = param(f.pos[1]) if len(f.pos) > 1 else mk("elem", param("*" + f.vararg)) if f.vararg else None
                if arg is None:
                    self.rep.skip(f"{name}: arguments")
                    continue
                if r.value is None:
                    self.rep.find(f"fails:{name}", f"{name} always fails", self.where(f))
                    continue
                for slash in (True, False):
                    q = Path(arg, False, slash)
                    if fn == "find":
                        self.find_path(name, f, q, q.norm(r.value), alive(r, q))
                    else:
                        self.make_path(name, f, q, r)

    def find_path(self, name, f, p, v, ok):
        rep = self.rep
        idx = set()
        for g, x in alternatives(v, ok):
            more = mk("truthy", p.rest)
            if x is NONE:
                hits = [y for y in walk(g) if y.op == "nn" and self.index_of(y.a[0], p.first) is not None
                        or y.op == "in" and y.a[0] is p.first and y.a[1].op == "attr" and y.a[1].a[0] is ME]
                if not hits or not all(implies(g, neg(y)) for y in hits):
                    rep.find(f"missed:{name}", f"{name} returns nothing although an element bears the name", self.where(f), show(g)[:200])
                else:
                    rep.ok()
                continue
            d = self.index_of(x, p.first)
            if d is not None:
                idx.add(d)
                here = neg(mk("nn", x))
                if implies(g, disj(neg(more), here)):
                    rep.ok()
                else:
                    rep.find(f"short:{name}", f"{name} returns the first element of a path that goes on", self.where(f), show(g)[:200])
                continue
            if x.op == "mcall" and x.a[1] == "find" and isinstance(x.a[0], T) and self.index_of(x.a[0], p.first) is not None:
                idx.add(self.index_of(x.a[0], p.first))
                if x.a[2:] != (p.rest,):
                    rep.find(f"rest:{name}", f"{name} does not look for the rest of the path in the element found", self.where(f),
                             show(x)[:200])
                elif not implies(g, more) and not self.given_rest(g, more):
                    rep.find(f"rest:{name}", f"{name} goes on although the path ends", self.where(f), show(g)[:200])
                else:
                    rep.ok()
                continue
            if self.wrong(x, p):
                rep.find(f"other:{name}", f"{name} returns something other than the element named by the path", self.where(f), show(x)[:200])
            else:
                rep.skip(f"{name}: result {show(x)[:100]}")
        self.keyed(name, f, idx)

    def given_rest(self, g, more):
        return False

    def wrong(self, x, p):
        """a lookup with something other than the first segment"""
        while x.op == "mcall" and x.a[1] in FOLLOW and isinstance(x.a[0], T) and x.a[0] is not ME:
            x = x.a[0]
        if x.op == "mcall" and x.a[1] == "get" and x.a[0].op == "attr" and x.a[0].a[0] is ME and len(x.a) > 2:
            k = x.a[2]
            return k in (p.rest, p.core, p.text) or k.op in ("item", "slice", "c") and any(y in (p.core, p.text, p.first, p.rest) for y in walk(k))
        return False

    def keyed(self, name, f, idx):
        for d in idx:
            self.rep.ok()
            self.rep.sample(f"{name} looks in {show(d)}")

    def make_path(self, name, f, p, r):
        rep = self.rep
        v = r.value
        results = [v]
        heap = r.heap
        # a list of results, or its only member
        lists = {x for x in walk(v) if x.op == "obj" and x in heap and heap[x].kind == "list"}
        if f.vararg:
            objs = [x for x in lists if any(y is x for y in ([v] if v.op == "obj" else [z for _, z in leaves(v)]))] or list(lists)
            if len(objs) != 1 or heap[objs[0]].base is not None:
                rep.skip(f"{name}: results")
                return
            o = heap[objs[0]]
            loop = mk("loop", param("*" + f.vararg))
            items = [(g, x) for g, x in o.items]
            if not items or any(not any(y is loop for y in walk(g)) for g, x in items):
                rep.skip(f"{name}: results")
                return
            ordered = len(items) == 1 or all(conj(a[0], b[0]) is FALSE for i, a in enumerate(items) for b in items[:i])
            if not ordered:
                rep.find(f"many:{name}", f"{name} adds several packages to its result for one path", self.where(f))
            cover = subst(disj(*[g for g, _ in items]), {loop: TRUE})
            if p.norm(cover) is not TRUE:
                rep.find(f"few:{name}", f"{name} leaves out packages from its result", self.where(f), show(cover)[:200])
            results = [(subst(g, {loop: TRUE}), x) for g, x in items]
        else:
            results = [(TRUE, v)]
        more = mk("truthy", p.rest)
        ok = alive(r, p)
        for rg, rv in results:
            for g, x in alternatives(p.norm(rv), conj(ok, p.norm(rg))):
                self.made(name, f, p, r, g, x, more)

    def made(self, name, f, p, r, g, x, more):
        rep = self.rep
        base, deep = x, False
        if x.op == "mcall" and x.a[1] == "make_packages" and isinstance(x.a[0], T):
            base, deep = x.a[0], True
            if x.a[2:] != (p.rest,):
                rep.find(f"rest:{name}", f"{name} does not create the rest of the path in the package found", self.where(f), show(x)[:200])
                return
        if deep and not implies(g, more) or not deep and not implies(g, neg(more)):
            rep.find(f"depth:{name}", f"{name} " + ("goes on although the path ends" if deep else "stops before the path ends"),
                     self.where(f), show(g)[:200])
            return
        for bg, b in alternatives(base, g):
            if self.index_of(b, p.first) is not None:
                if implies(bg, mk("nn", b)) or any(
                        y.op == "in" and y.a[0] is p.first and implies(bg, y) for y in walk(bg)):
                    rep.ok()
                else:
                    rep.find(f"absent:{name}", f"{name} uses a package that may not exist", self.where(f), show(bg)[:200])
            elif b.op == "obj" and b in r.heap and r.heap[b].kind == "inst":
                e = r.heap[b].entries
                if p.norm(e.get("name", NONE)) is not p.first:
                    rep.find(f"named:{name}", f"{name} creates a package under another name than the path says", self.where(f))
                elif not self.fresh(bg, p):
                    rep.find(f"double:{name}", f"{name} creates a package although one may exist", self.where(f), show(bg)[:200])
                else:
                    rep.ok()
            elif self.wrong(b, p):
                rep.find(f"other:{name}", f"{name} uses another package than the one named by the path", self.where(f), show(b)[:200])
            else:
                rep.skip(f"{name}: package {show(b)[:100]}")

    def fresh(self, g, p):
        for y in walk(g):
            if (y.op == "nn" and self.index_of(y.a[0], p.first) is not None or y.op == "in" and y.a[0] is p.first) and implies(g, neg(y)):
                return True
        return False

    # ------------------------------------------------------------ filters
    def filters(self):
        for fn in ("filter", "filter_regex"):
            c, f, r = self.method("Package", fn)
            if r is None:
                continue
            name = f"Package.{fn}"
            self.rep.count("lookup methods")
            L = attr(ME, "elements")
            lp, el = mk("loop", L), mk("elem", L)
            n = attr(el, "name")
            ys = [(g, e.data[0]) for g, e in r.flat() if e.kind == "yield"]
            if not ys:
                self.rep.skip(f"{name}: how elements are delivered")
                continue
            cover = FALSE
            bad = False
            for g, x in ys:
                if x is not el:
                    self.rep.skip(f"{name}: delivers {show(x)[:60]}")
                    bad = None
                    break
                if not self.matched(g, n, f, fn):
                    self.rep.find(f"other:{name}", f"{name} delivers elements whose names do not match", self.where(f), show(g)[:200])
                    bad = True
                if conj(cover, g) is not FALSE:
                    self.rep.find(f"twice:{name}", f"{name} may deliver an element twice", self.where(f))
                    bad = True
                cover = disj(cover, g)
            if bad is None:
                continue
            m = {lp: TRUE}
            for y in walk(cover):
                if self.match_atom(y, n, f, fn):
                    m[y] = TRUE
                elif y.op == "inst" and y.a[0] is param(f.pos[1] if len(f.pos) > 1 else ""):
                    pass
            q = subst(cover, m)
            rest = [y for y in walk(q) if y.op not in ("and", "or", "not", "inst", "const", "c")and is_cond(y)]
            if q is FALSE or rest:
                self.rep.find(f"missed:{name}", f"{name} leaves out elements whose names match", self.where(f), show(cover)[:200])
            elif not bad:
                self.rep.ok()
            for g, e in r.flat():
                if e.kind == "leave" and e.data[0] is L:
                    self.rep.find(f"missed:{name}", f"{name} stops before the last element", self.where(f))

    def match_atom(self, y, n, f, fn):
        if fn == "filter":
            return y.op == "in" and y.a[0] is n and y.a[1] is param("*" + (f.vararg or ""))
        return y.op in ("truthy", "nn") and isinstance(y.a[0], T) and y.a[0].op in ("mcall", "call") and n in y.a[0].a

    def matched(self, g, n, f, fn):
        at = {y for y in walk(g) if self.match_atom(y, n, f, fn)}
        return bool(at) and subst(g, {y: FALSE for y in at}) is FALSE

    # ------------------------------------------------------------ keyed packages of a workspace
    def package_map(self):
        c, f, r = self.method("Workspace", "create_package_map")
        if r is not None:
            self.rep.count("lookup methods")
            m = param(f.pos[1])
            sets = [(g, e) for g, e in r.flat() if e.kind == "setitem"]
            mine = [(g, e) for g, e in sets if e.data[0].op == "attr" and e.data[0].a[0] is ME]
            ok = bool(mine)
            for g, e in mine:
                k, v = e.data[1], e.data[2]
                if v.op == "mcall" and v.a[1] == "make_packages":
                    v = v.a[2] if len(v.a) > 2 else NONE
                elif any(x.op == "mcall" and x.a[1] == "make_packages" for x in walk(v)):
                    v = [x for x in walk(v) if x.op == "mcall" and x.a[1] == "make_packages"][0].a[2]
                if any(x is m for x in walk(k)) and any(x is m for x in walk(v)) and k is v:
                    ok = False
            if mine and not ok:
                self.rep.find("map:create_package_map", "create_package_map confuses keys and paths", self.where(f))
            elif mine:
                self.rep.ok()
            else:
                self.rep.skip("Workspace.create_package_map: how the map is filled")
        for fn in ("find_element", "get_package", "add_element"):
            c, f, r = self.method("Workspace", fn)
            if r is None:
                continue
            self.rep.count("lookup methods")
            k = param(f.pos[1])
            used = [x for g, e in r.flat() for d in e.data if isinstance(d, T) for x in walk(d)]
            used += list(walk(r.value)) if r.value is not None else []
            got = {x.a[1] for x in used if x.op == "item" and isinstance(x.a[0], T) and x.a[0].op == "attr" and x.a[0].a[0] is ME}
            got |= {x.a[2] for x in used if x.op == "mcall" and x.a[1] == "get" and x.a[0].op == "attr" and x.a[0].a[0] is ME
                    and len(x.a) > 2}
            if got == {k}:
                self.rep.ok()
                if fn == "find_element":
                    want = param(f.pos[2])
                    v = [x for _, x in leaves(r.value)]
                    if all(x is NONE or x.op == "mcall" and x.a[1] == "find" and x.a[2:] == (want,) for x in v):
                        self.rep.ok()
                    else:
                        self.rep.skip(f"Workspace.{fn}: result")
            elif got and k not in got:
                self.rep.find(f"key:Workspace.{fn}", f"Workspace.{fn} does not use the package registered under the key", self.where(f))
            else:
                self.rep.skip(f"Workspace.{fn}: the package is found in another way")


def run(s, rep):
    k = Lookups(s, rep)
    k.indexed()
    k.lists()
    k.filters()
    k.package_map()
    rep.floor("lookup methods", rep.counts.get("lookup methods", 0), 0)
