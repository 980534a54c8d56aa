"""
Propositional simplification of guards.

A guard is a boolean combination of atomic conditions.  It is put in a
canonical irredundant form with a reduced ordered decision diagram (pure
propositional rewriting over the atoms of that one guard).  A few axioms that
relate atoms are used as don't-cares:
  x == 'a' excludes x == 'b';  x == const, isinstance(x, T) and bool(x) each
  imply that x is present;  'x has no content' implies that no attribute of x
  is present;  isinstance(x, Sub) implies isinstance(x, Base).
"""


class Bdd:
    def __init__(self):
        self.uniq = {}
        self.nodes = [(10 ** 9, 0, 0), (10 ** 9, 1, 1)]
        self.memo = {}

    def node(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.uniq.get(k)
        if r is None:
            r = len(self.nodes)
            self.nodes.append(k)
            self.uniq[k] = r
        return r

    def var(self, v):
        return self.node(v, 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        v = min(self.nodes[f][0], self.nodes[g][0], self.nodes[h][0])

        def cof(x):
            n = self.nodes[x]
            return (n[1], n[2]) if n[0] == v else (x, x)
        f0, f1 = cof(f)
        g0, g1 = cof(g)
        h0, h1 = cof(h)
        r = self.node(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.memo[k] = r
        return r

    def land(self, f, g):
        return self.ite(f, g, 0)

    def lor(self, f, g):
        return self.ite(f, 1, g)

    def lnot(self, f):
        return self.ite(f, 0, 1)

    def isop(self, lo, up, memo):
        """irredundant cover between lo and up: (list of cubes, bdd of the cover)"""
        if lo == 0:
            return [], 0
        if up == 1:
            return [()], 1
        k = (lo, up)
        r = memo.get(k)
        if r is not None:
            return r
        v = min(self.nodes[lo][0], self.nodes[up][0])

        def cof(x):
            n = self.nodes[x]
            return (n[1], n[2]) if n[0] == v else (x, x)
        l0, l1 = cof(lo)
        u0, u1 = cof(up)
        c0, b0 = self.isop(self.land(l0, self.lnot(u1)), u0, memo)
        c1, b1 = self.isop(self.land(l1, self.lnot(u0)), u1, memo)
        ln0 = self.land(l0, self.lnot(b0))
        ln1 = self.land(l1, self.lnot(b1))
        cd, bd = self.isop(self.lor(ln0, ln1), self.land(u0, u1), memo)
        cubes = [((v, False),) + c for c in c0] + [((v, True),) + c for c in c1] + cd
        b = self.lor(self.node(v, b0, b1), bd)
        memo[k] = (cubes, b)
        return cubes, b


MAX_ATOMS = 30
_axiom_cache = {}


def atoms_of(t, acc, count):
    st = [t]
    while st:
        x = st.pop()
        if x.op in ("and", "or"):
            st.extend(x.a)
        elif x.op == "not":
            st.append(x.a[0])
        else:
            count[x] = count.get(x, 0) + 1
            if count[x] == 1:
                acc.append(x)
                if len(acc) > MAX_ATOMS:
                    return


ITER = "abc.Iterable", "typing.Iterable"


def class_iterable(c):
    """True / False / None (depends on the subclass)"""
    if not c.known_bases():
        return None
    if c.lookup("__iter__") is not None:
        return True
    return None if any(x.lookup("__iter__") is not None or not x.known_bases() for x in c.all_subclasses()) else False


def _axioms(atoms):
    """pairs: ('excl', i, j) / ('impl', i, j) / ('nand'...)"""
    out = []
    by = {}
    for i, x in enumerate(atoms):
        by.setdefault(x.op, []).append(i)
    for i in by.get("eq", ()):
        a = atoms[i]
        for j in by.get("eq", ()):
            if j <= i:
                continue
            b = atoms[j]
            sa = _eqparts(a)
            sb = _eqparts(b)
            if sa and sb and sa[0] is sb[0] and sa[1] is not sb[1]:
                out.append(("excl", i, j))
        sa = _eqparts(a)
        if sa and not (sa[1].op == "c" and sa[1].a[1] is None):
            for j in by.get("nn", ()):
                if atoms[j].a[0] is sa[0]:
                    out.append(("impl", i, j))
            for j in by.get("truthy", ()):
                if atoms[j].a[0] is sa[0] and sa[1].op == "c":
                    out.append(("impl" if sa[1].a[1] else "excl", i, j))
    for i in by.get("truthy", ()):
        x = atoms[i].a[0]
        for j in by.get("nn", ()):
            if atoms[j].a[0] is x:
                out.append(("impl", i, j))
        if x.op == "isempty":
            ign = {v.a[1] for v in x.a[1].a if v.op == "c"} if x.a[1].op == "tup" else None
            if ign is None:
                continue
            for j, y in enumerate(atoms):
                if y.op in ("nn", "truthy", "inst") and y.a[0].op == "attr" and y.a[0].a[0] is x.a[0] \
                        and y.a[0].a[1] not in ign and y.a[0].a[1] not in ("is_empty", "is_empty_with_ignore"):
                    out.append(("excl", i, j))
                elif y.op == "loop" and y.a[0].op == "attr" and y.a[0].a[0] is x.a[0] and y.a[0].a[1] not in ign:
                    out.append(("excl", i, j))
            for j in by.get("truthy", ()):
                y = atoms[j].a[0]
                if j != i and y.op == "isempty" and y.a[0] is x.a[0] and y.a[1].op == "tup":
                    ign2 = {v.a[1] for v in y.a[1].a if v.op == "c"}
                    if ign <= ign2:
                        out.append(("impl", i, j))
    for i in by.get("loop", ()):
        x = atoms[i].a[0]
        for k in ("truthy", "nn"):
            for j in by.get(k, ()):
                if atoms[j].a[0] is x:
                    out.append(("impl", i, j))
    for i in by.get("inst", ()):
        x, ty = atoms[i].a
        nonetype = ty.op == "ext" and ty.a[0] in ("NoneType", "types.NoneType", "object")
        if not nonetype:
            for j in by.get("nn", ()):
                if atoms[j].a[0] is x:
                    out.append(("impl", i, j))
        for j in by.get("inst", ()):
            if j != i and atoms[j].a[0] is x:
                t2 = atoms[j].a[1]
                if ty.op == "cls" and t2.op == "cls":
                    if ty.a[0].is_sub(t2.a[0]):
                        out.append(("impl", i, j))
                    elif not t2.a[0].is_sub(ty.a[0]) and not (
                            set(map(id, ty.a[0].all_subclasses())) & set(map(id, t2.a[0].all_subclasses()))):
                        out.append(("excl", i, j))
                elif ty.op == "ext" and t2.op == "ext":
                    m, n = ty.a[0], t2.a[0]
                    b = {"str", "int", "float", "list", "dict", "tuple", "set", "bytes", "bool"}
                    if m == "bool" and n == "int":
                        out.append(("impl", i, j))
                    elif m in b and n in b and {m, n} != {"bool", "int"}:
                        out.append(("excl", i, j))
                    elif n.endswith(ITER) and m in b:
                        out.append(("excl" if m in ("int", "float", "bool") else "impl", i, j))
                elif {ty.op, t2.op} == {"cls", "ext"}:
                    e = ty.a[0] if ty.op == "ext" else t2.a[0]
                    c = ty.a[0] if ty.op == "cls" else t2.a[0]
                    if e in ("str", "int", "float", "list", "dict", "tuple", "bool") and not c.is_sub(e):
                        out.append(("excl", i, j))
                    elif e.endswith(ITER) and ty.op == "cls":
                        r = class_iterable(c)
                        if r is not None:
                            out.append(("impl" if r else "excl", i, j))
    return out


def _eqparts(a):
    x, y = a.a
    if y.op in ("c", "em"):
        return x, y
    if x.op in ("c", "em"):
        return y, x
    return None


def canon(t, mk_and, mk_or, neg, TRUE, FALSE, force=False):
    acc, count = [], {}
    atoms_of(t, acc, count)
    if len(acc) > MAX_ATOMS:
        return t
    atoms = sorted(acc)
    ax = _axioms(atoms) if len(atoms) > 1 else []
    if not ax and not force and all(c == 1 for c in count.values()):
        return t
    idx = {x: i for i, x in enumerate(atoms)}
    b = Bdd()
    memo = {}

    def build(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "and":
            r = 1
            for y in x.a:
                r = b.land(r, build(y))
        elif x.op == "or":
            r = 0
            for y in x.a:
                r = b.lor(r, build(y))
        elif x.op == "not":
            r = b.lnot(build(x.a[0]))
        else:
            r = b.var(idx[x])
        memo[x] = r
        return r
    f = build(t)
    k = 1
    for kind, i, j in ax:
        if kind == "excl":
            k = b.land(k, b.lnot(b.land(b.var(i), b.var(j))))
        else:
            k = b.land(k, b.lor(b.lnot(b.var(i)), b.var(j)))
    lo = b.land(f, k)
    if lo == 0:
        return FALSE
    up = b.lor(f, b.lnot(k))
    if up == 1:
        return TRUE
    cubes, _ = b.isop(lo, up, {})
    terms = []
    for c in cubes:
        lits = [atoms[v] if pos else neg(atoms[v]) for v, pos in c]
        terms.append(mk_and(lits))
    return mk_or(terms)
