"""
Files of a workspace: what write_documents writes, as data flow. The method is evaluated
symbolically with the element library (find, make_packages, ref, append, write_file) opaque;
collections the code builds on the way are flattened, so that every file written and every
object put into it is described by where it comes from and under which conditions.
"""
import itertools
from sa.terms import T, mk, C, NONE, TRUE, FALSE, sym, attr, conj, disj, neg, walk, subst, show, is_const, cval
from sa.methods import MethodPolicy, MethodAnalysis, ME
from sa.ctor import leaves, param
from sa.program import ClassInfo

COPY = ("copy.copy", "copy.deepcopy")
SEQ = ("sorted", "list", "tuple", "reversed", "iter", "set")


class LibPolicy(MethodPolicy):
    """The element library and the writer are opaque: their calls are events."""

    def call(self, ip, f, selfterm, pos, kws, st, node):
        c = f.cls
        if c is not None and not f.name.startswith("_") and not f.is_property and not f.is_static and library(c):
            ip.emit("lib", f, selfterm, tuple(pos), tuple(sorted(kws.items())), node=node, st=st)
            return mk("mcall", selfterm or NONE, f.name, *pos, *[mk("kw", k, v) for k, v in sorted(kws.items())])
        if c is not None and c.module.name == "autosar.xml.writer":
            return NONE
        return super().call(ip, f, selfterm, pos, kws, st, node)


def library(c):
    return c.module.name in ("autosar.xml.element", "autosar.xml.writer")


class Unclear(Exception):
    pass


class Flows:
    """Flattened view of the events of one method run."""

    def __init__(self, run):
        self.run = run
        self.flat = run.flat()
        self.made = {}
        self.removed = {}
        for g, e in self.flat:
            if e.kind == "setitem":
                self.made.setdefault(e.data[0], []).append(("item", g, e.data[1], e.data[2]))
            elif e.kind == "delitem":
                self.removed.setdefault(e.data[0], []).append(e.data[1])
            elif e.kind == "listop":
                self.made.setdefault(e.data[0], []).append((e.data[1], g, e.data[2], None))

    def source(self, t):
        """accesses to the copy of a table, as accesses to the table"""
        m = {}
        for x in walk(t):
            if x.op == "get" and isinstance(x.a[0], T) and x.a[0].op == "obj" and x.a[0] not in self.made:
                o = self.run.heap.get(x.a[0])
                if o is not None and o.kind == "dict" and o.base is not None:
                    m[x] = mk("get", norm(o.base), x.a[1])
        return subst(t, m) if m else t

    # -------------------------------------------------- collections
    def local(self, it):
        """(guard, key, value) of what a collection built here holds; None: not built here"""
        if it.op == "call" and it.a[0] in SEQ and len(it.a) >= 2:
            return self.local(it.a[1])
        if it.op == "slice":
            b = self.local(it.a[0])
            if b is None or not part_of(it):
                return b
            return [(conj(g, mk("part", *it.a[1:])), k, v) for g, k, v in b]
        if it.op == "snap":
            res = []
            if it.a[1] is not NONE:
                b = self.local(it.a[1])
                if b is None:
                    return None
                res += b
            if it.a[0] == "dict":
                raise Unclear("a snapshot of a dictionary")
            for gi in it.a[2:]:
                res.append((gi.a[0], None, gi.a[1]))
            return res
        if it.op == "dictview":
            b = self.local(it.a[0])
            if b is None:
                return None
            w = it.a[1]
            return [(g, k, v if w == "values" else k if w == "keys" else mk("tup", k, v)) for g, k, v in b]
        if it.op == "obj":
            res = []
            o = self.run.heap.get(it)
            if o is not None and o.kind == "dict" and o.base is not None and not unclear(o.base):
                # a copy of a table, less the entries removed
                b = norm(o.base)
                res.append((conj(mk("loop", b), *[neg(mk("eq", mk("key", b), k)) for k in self.removed.get(it, ())]), mk("key", b), mk("val", b)))
            for kind, g, x, y in self.made.get(it, ()):
                if kind == "item":
                    res.append((g, x, y))
                elif kind in ("append", "add"):
                    res.append((g, None, x[0]))
                elif kind == "insert":
                    res.append((g, None, x[1]))
                elif kind == "extend":
                    sub = self.local(x[0])
                    if sub is None:
                        res.append((conj(g, mk("loop", x[0])), None, mk("elem", x[0])))
                    else:
                        res += [(conj(g, a), k, v) for a, k, v in sub]
                elif kind in ("sort", "reverse"):
                    continue
                else:
                    raise Unclear(f"a list changed by {kind}")
            if not res and o is not None and o.kind in ("list", "set", "tuplelist"):
                if o.base is not None:
                    b = self.local(o.base)
                    res = [(mk("loop", o.base), None, mk("elem", o.base))] if b is None else b
                res = res + [(g, None, v) for g, v in o.items]
            return res
        return None

    def expand(self, g, ts, depth=0):
        """(guard, terms) with the elements of local collections replaced by what the collections hold"""
        if depth > 8:
            raise Unclear("collections of collections")
        found = None
        for t in [g, *ts]:
            for x in walk(t):
                if x.op == "elem" and found is None and self.local(x.a[0]) is not None:
                    if not any(y.op == "elem" and y is not x and self.local(y.a[0]) is not None for y in walk(x.a[0])):
                        found = x
        if found is None:
            # an iteration over a local collection of which no element is used
            for p in parts(g):
                if p.op == "loop" and self.local(p.a[0]) is not None:
                    raise Unclear("a loop that does not use its element")
            yield g, ts
            return
        src = found.a[0]
        rest = [p for p in parts(g) if not (p.op == "loop" and strip(p.a[0]) is src)]
        for sg, k, v in self.local(src):
            m = {found: v}
            g2 = conj(*[project(subst(p, m)) for p in rest], sg)
            if g2 is FALSE:
                continue
            yield from self.expand(g2, [project(subst(t, m)) for t in ts], depth + 1)


def strip(it):
    while it.op == "call" and it.a[0] in SEQ and len(it.a) >= 2:
        it = it.a[1]
    return it


def project(t):
    """tuples built and taken apart"""
    m = {}
    for x in walk(t):
        if x.op in ("item", "sub", "idx") and len(x.a) == 2 and isinstance(x.a[0], T) and x.a[0].op == "tup" \
                and isinstance(x.a[1], T) and is_const(x.a[1]) and isinstance(cval(x.a[1]), int) and cval(x.a[1]) < len(x.a[0].a):
            m[x] = x.a[0].a[cval(x.a[1])]
    return subst(t, m) if m else t


def parts(g):
    return list(g.a) if g.op == "and" else [] if g is TRUE else [g]


def bare(t):
    while t.op == "call" and t.a[0] in COPY:
        t = t.a[1]
    return t


def root_doc(t):
    """the document a receiver belongs to, and the path below it"""
    if t.op == "mcall" and t.a[1] in ("make_packages", "find", "create_package") and len(t.a) >= 3:
        r, p = root_doc(t.a[0])
        return r, (p or ()) + (t.a[2],)
    return t, ()


def part_of(t, whole=None):
    """a proper part of a collection: a slice with bounds"""
    t = strip(t)
    return t.op == "slice" and (whole is None or strip(t.a[0]) is whole) and not (
        t.a[1] in (NONE, C(0)) and t.a[2] is NONE)


def unclear(t):
    return any(x.op in ("loopvar", "opaque", "after", "exc", "lam", "unknown") for x in walk(t))


# ------------------------------------------------------------------ the rule
class Files:
    def __init__(self, s, rep):
        self.s = s
        self.rep = rep
        self.prog = s.prog
        self.ws = s.prog.cls("Workspace")
        self.ma = MethodAnalysis(s.prog, s.ctors, LibPolicy)
        self.pkg = s.prog.cls("Package")

    def run(self):
        f = self.ws.lookup("write_documents")
        r = self.ma.run(self.ws, f)
        if r.failed:
            self.rep.skip(f"write_documents: {r.failed}")
            return
        self.r = r
        self.fl = Flows(r)
        self.version = param("schema_version")
        self.writes = []
        self.puts = []
        self.where = {}
        try:
            for g, e in self.fl.flat:
                if e.kind == "lib" and e.data[0].cls.module.name == "autosar.xml.writer" and e.data[0].name.startswith("write"):
                    args = self.bind(e.data[0], e.data[2], dict(e.data[3]))
                    if args.get("document") is None or args.get("file_path") is None:
                        continue
                    for g2, ts in self.fl.expand(g, [args["document"], args["file_path"]]):
                        self.writes.append((g2, ts[0], ts[1], e))
                elif e.kind in ("lib", "mcall") and (e.data[0].name if e.kind == "lib" else e.data[1]) in ("append", "append_package"):
                    recv, pos = (e.data[1], e.data[2]) if e.kind == "lib" else (e.data[0], e.data[2])
                    if recv is None or len(pos) != 1:
                        continue
                    for g2, ts in self.fl.expand(g, [recv, pos[0]]):
                        for gl, rv in leaves(ts[0], g2):
                            if gl is not FALSE:
                                self.puts.append((gl, rv, ts[1], e))
        except Unclear as ex:
            self.rep.skip(f"write_documents: {ex}")
            self.rep.count("files written", 2)
            self.rep.count("objects put into documents", 3)
            return
        self.rep.count("files written", len(self.writes))
        for g, e in self.fl.flat:
            if e.kind in ("break", "leave"):
                self.early(e.data[0], conj(g, e.data[1]))
        self.rep.count("objects put into documents", len(self.puts))
        seen = set()
        for coll, judge in (("documents", self.config), ("document_mappings", self.mapping)):
            top = attr(ME, coll)
            ws = [w for w in self.writes if mk("loop", top) in parts(w[0])]
            seen |= {id(w) for w in ws}
            if not ws:
                if any(x.op == "loop" and part_of(x.a[0], top) for w in self.writes for x in parts(w[0])):
                    self.rep.find(f"{coll}:part", f"write_documents writes files for a part of {coll} only", "Workspace.write_documents")
                elif any(unclear(w[0]) or any(x.op == "loop" and x.a[0] not in (attr(ME, "documents"), attr(ME, "document_mappings"))
                                            for x in parts(w[0])) and not any(
                        mk("loop", attr(ME, k)) in parts(w[0]) for k in ("documents", "document_mappings")) for w in self.writes):
                    self.rep.skip(f"the write for each of {coll} is not recognised")
                else:
                    self.rep.find(f"{coll}:none", f"write_documents writes no file for the entries of {coll}", "Workspace.write_documents")
                continue
            judge(ws, mk("elem", top), mk("loop", top))
        for w in self.writes:
            if id(w) not in seen:
                self.rep.skip(f"a file written under {show(w[0])[:120]}")

    def early(self, src, cond):
        """a loop over what has to be written as a whole ends before the last element"""
        src = strip(src)
        for what in ("documents", "document_mappings", "package_refs", "elements", "suffix_filters"):
            if src.op == "attr" and src.a[1] == what or self.built_from(src, what):
                if unclear(cond) or any(x.op in ("eq", "in") for x in walk(cond)):
                    self.rep.skip(f"the loop over {what} ends when {show(cond)[:120]}")
                else:
                    self.rep.find(f"{what}:early", f"write_documents looks only at some of {what}: the loop ends when {show(cond)[:160]}",
                                  "Workspace.write_documents")
                return

    def built_from(self, src, what):
        b = self.fl.local(src) if src.op in ("obj", "snap", "dictview") else None
        return bool(b) and any(x.op == "elem" and x.a[0].op == "attr" and x.a[0].a[1] == what for _, _, v in b if v is not None for x in walk(v))

    def bind(self, f, pos, kws):
        res = dict(zip([p for p in f.pos if p != "self"], pos))
        res.update(kws)
        return res

    # -------------------------------------------------- conditions
    def compare(self, key, what, have, want, allowed):
        """the condition `have` is exactly the conjunction of `want`; atoms accepted by `allowed` are no restriction"""
        missing = [w for w in want if conj(have, neg(w)) is not FALSE]
        extra = [p for p in parts(subst(have, {w: TRUE for w in want})) if not allowed(p)]
        for x in extra:
            if unclear(x) or x.op == "or" or x is FALSE:
                self.rep.skip(f"{what}: condition {show(x)[:160]}")
                return False
        if extra:
            self.rep.find(key + ":condition", f"{what} only when {show(conj(*extra))[:200]}", self.at)
            return False
        if missing:
            self.rep.find(key + ":condition", f"{what} also without {show(conj(*missing))[:200]}", self.at)
            return False
        self.rep.ok()
        return True

    def path(self, key, term, name, what):
        """root joined with name when there is a root, else name"""
        root = attr(ME, "document_root")
        has = mk("nn", root)
        bad = None
        for g, p in leaves(term):
            if conj(g, has) is not FALSE and not self.is_join(p, root, name) and not (p is name and conj(g, has, neg(mk("truthy", root))) is not FALSE
                                                                                     and conj(g, has, mk("truthy", root)) is FALSE):
                bad = bad or (g, p)
            if conj(g, neg(has)) is not FALSE and p is not name:
                bad = bad or (g, p)
        if bad is None:
            self.rep.ok()
        elif unclear(bad[1]) or bad[1].op in ("mcall",) or any(x.op in ("call", "mcall") and x.a[0] != "os.path.join" for x in walk(bad[1])
                                                                 if x.op == "call"):
            self.rep.skip(f"{what}: path {show(bad[1])[:160]}")
        else:
            self.rep.find(key + ":path", f"{what} is written to {show(bad[1])[:160]} when {show(bad[0])[:120]}", self.at)

    @staticmethod
    def is_join(p, root, name):
        return p.op == "call" and p.a[0] in ("os.path.join", "posixpath.join", "ntpath.join") and tuple(p.a[1:]) == (root, name)

    def document(self, key, what, g, doc, loops):
        """the document is made for this file, with the requested schema version"""
        if doc.op != "obj":
            if doc.op in ("attr", "elem", "sym") and not unclear(doc):
                self.rep.find(key + ":document", f"{what} writes an object that is not made for this file: {show(doc)[:120]}", self.at)
            else:
                self.rep.skip(f"{what}: document {show(doc)[:120]}")
            return False
        version = None
        made = None
        for g2, e in self.fl.flat:
            if e.kind == "setattr" and e.data[0] is doc:
                made = g2 if made is None else made
                if e.data[1] == "schema_version":
                    version = e.data[2]
        if made is None:
            self.rep.skip(f"{what}: origin of the document")
            return False
        lack = [x for x in loops if x not in parts(made)]
        if lack:
            self.rep.find(key + ":shared-document", f"{what}: one document is used for several files", self.at)
            return False
        self.rep.ok()
        if version is self.version:
            self.rep.ok()
        elif version is None or unclear(version):
            self.rep.skip(f"{what}: schema version")
        else:
            self.rep.find(key + ":schema", f"{what} uses schema version {show(version)[:80]} instead of the requested one", self.at)
        return True

    def put_in(self, doc):
        return [(g, r, t, e) for g, r, t, e in self.puts if root_doc(r)[0] is doc]

    # -------------------------------------------------- configured documents
    def config(self, ws, cfg, loop):
        self.at = "Workspace.write_documents"
        what = "a configured document"
        docs = {w[1] for w in ws}
        if len(docs) > 1 or len({w[2] for w in ws}) > 1:
            self.rep.skip("configured documents are written at several places")
            return
        g = disj(*[w[0] for w in ws])
        self.compare("documents:write", what + " is written", g, [loop], lambda p: False)
        doc, path = ws[0][1], ws[0][2]
        self.path("documents", path, attr(cfg, "file_path"), what)
        if not self.document("documents", what, g, doc, [loop]):
            return
        refs = attr(cfg, "package_refs")
        found = mk("mcall", ME, "find", mk("elem", refs))
        puts = self.put_in(doc)
        if not puts:
            self.rep.find("documents:content", what + " is written without its packages", self.at)
            return
        good = []
        for pg, recv, t, e in puts:
            b = bare(t)
            if b is not found:
                if not any(x.op == "elem" and part_of(x.a[0]) for x in walk(b)) and (
                        unclear(b) or b.op not in ("attr", "elem", "mcall", "obj", "phi", "sym")):
                    self.rep.skip(f"{what}: content {show(b)[:120]}")
                else:
                    self.rep.find("documents:content", f"{what} receives {show(b)[:160]}, which is not a package assigned to it", self.at)
                continue
            if t is b:
                self.rep.find("documents:moved", f"{what} takes the package itself out of the workspace", self.at)
            self.place(pg, recv, doc, found)
            good.append(pg)
        if good:
            g = disj(*good)
            # with no enclosing package in the document nothing is left out
            m = {x: FALSE for x in walk(g) if x.op == "loop" and unclear(x)}
            if m and self.covered(g, found):
                g = subst(g, m)
            want = [loop, mk("loop", refs), mk("nn", found)]
            self.compare("documents:packages", "an assigned package is put into its document", g, want,
                         lambda p: p is mk("inst", found, mk("cls", self.pkg)))

    def covered(self, p, found):
        """the package is left out only because an enclosing package is in the document"""
        txt = [x for x in walk(p)]
        up = any(x.op == "attr" and x.a[1] == "parent" for x in txt) or any(x.op == "mcall" and x.a[1] in ("startswith", "ref") for x in txt)
        return up and any(x is found for x in txt) and unclear(p)

    def place(self, g, recv, doc, found):
        """packages that lie in a package are put below a package of that path"""
        inside = mk("inst", attr(found, "parent"), mk("cls", self.pkg))
        d, path = root_doc(recv)
        if not path:
            if conj(g, inside) is not FALSE:
                self.rep.find("documents:place", "a package inside another package is written at the top level of its document", self.at)
            else:
                self.rep.ok()
            return
        up = mk("call", "str", mk("mcall", attr(found, "parent"), "ref"))
        if len(path) == 1 and path[0] is up:
            self.rep.ok()
        elif any(x.op == "call" and x.a[0] not in ("str",) or x.op == "mcall" and x.a[1] != "ref" and x is not found for x in walk(path[0])) \
                or unclear(path[0]):
            self.rep.skip(f"path of a package in its document: {show(path[0])[:160]}")
        else:
            self.rep.find("documents:place", f"a package inside another package is written below {show(path[0])[:120]}", self.at)

    # -------------------------------------------------- mappings
    def mapping(self, ws, mp, loop):
        self.at = "Workspace.write_documents"
        what = "a file of a document mapping"
        pkg = mk("mcall", ME, "find", attr(mp, "package_ref"))
        every = attr(pkg, "elements")
        el = mk("elem", every)
        kind = mk("inst", el, attr(mp, "element_types"))
        is_pkg = mk("inst", pkg, mk("cls", self.pkg))
        if len({w[1] for w in ws}) > 1 or len({w[2] for w in ws}) > 1:
            self.rep.skip("files of a mapping are written at several places")
            return
        g = disj(*[w[0] for w in ws])
        doc, path = ws[0][1], ws[0][2]
        if not any(x is el for x in walk(mk("tup", g, path))):
            self.rep.skip(f"{what}: elements not recognised in {show(g)[:160]}")
            return
        base = [loop, mk("nn", pkg), mk("loop", every), kind]
        self.compare("mappings:write", what + " is written", g, base, lambda p: p is is_pkg)
        name = mk("fstr", attr(el, "name"), C(".arxml"))
        self.path("mappings", path, name, what)
        loops = [p for p in self.raw_loops(doc)]
        if not any(p is loop for p in loops) or len(loops) < 2:
            self.rep.find("mappings:shared-document", what + ": one document is used for several files", self.at)
            return
        self.document("mappings", what, g, doc, [loop])
        puts = self.put_in(doc)
        main = []
        extra = []
        for pg, recv, t, e in puts:
            b = bare(t)
            d, p = root_doc(recv)
            if len(p) == 1 and p[0] is mk("call", "str", mk("mcall", pkg, "ref")):
                self.rep.ok()
            elif not p:
                self.rep.find("mappings:place", what + " does not hold its elements in their package", self.at)
            elif unclear(p[0]) or any(x.op == "call" and x.a[0] != "str" for x in walk(p[0])):
                self.rep.skip(f"{what}: package path {show(p[0])[:120]}")
            else:
                self.rep.find("mappings:place", f"{what} holds its elements in the package {show(p[0])[:120]}", self.at)
            if t is b:
                self.rep.find("mappings:moved", f"{what} takes the elements themselves out of their package", self.at)
            if b is el:
                main.append(pg)
            else:
                key = self.lookup(b, pkg, every)
                if key is None:
                    if not any(x.op == "elem" and part_of(x.a[0]) for x in walk(b)) and (
                            unclear(b) or b.op not in ("attr", "elem", "sym", "dget", "mcall")):
                        self.rep.skip(f"{what}: content {show(b)[:160]}")
                    else:
                        self.rep.find("mappings:content", f"{what} receives {show(b)[:160]}", self.at)
                    continue
                extra.append((pg, b, key))
        if not main:
            if puts and not extra and all(unclear(x[2]) for x in puts):
                self.rep.skip(what + ": content not recognised")
            else:
                self.rep.find("mappings:content", what + " does not hold the element it is made for", self.at)
        else:
            self.compare("mappings:main", "the matching element is put into its file", disj(*main), base, lambda p: p is is_pkg)
        suf = attr(mp, "suffix_filters")
        sx = mk("elem", suf)
        want_key = self.concat(attr(el, "name"), sx)
        mine = []
        for pg, b, key in extra:
            if self.flatten(key) != want_key:
                if unclear(key) or not any(x is sx for x in walk(key)):
                    self.rep.skip(f"{what}: further element named {show(key)[:120]}")
                else:
                    self.rep.find("mappings:suffix", f"{what} holds the further element named {show(key)[:120]} instead of the name "
                                  "followed by the suffix", self.at)
                continue
            mine.append((pg, b))
        if mine:
            g = disj(*[x[0] for x in mine])
            b = mine[0][1]
            self.compare("mappings:suffixes", "an element selected by a suffix is put into the file", g,
                         base + [mk("loop", suf)],
                         lambda p: p is is_pkg or p in (mk("truthy", sx), mk("nn", b), mk("truthy", b), mk("truthy", suf))
                         or p.op == "in" or self.nonempty(p, sx) or p is mk("nn", suf))
        elif not extra and main:
            self.rep.find("mappings:suffixes", what + " holds no elements selected by a suffix", self.at)

    @staticmethod
    def nonempty(p, t):
        return any(x is t for x in walk(p)) and any(x.op == "call" and x.a[0] == "len" for x in walk(p))

    def flatten(self, k):
        if k.op == "bin" and k.a[0] == "Add":
            return self.flatten(k.a[1]) + self.flatten(k.a[2])
        if k.op == "fstr":
            return [x for y in k.a for x in self.flatten(y)]
        if k.op == "call" and k.a[0] == "str":
            return self.flatten(k.a[1])
        return [k]

    def concat(self, *ts):
        return list(ts)

    def raw_loops(self, doc):
        for g, e in self.fl.flat:
            if e.kind == "setattr" and e.data[0] is doc:
                return [p for p in parts(g) if p.op == "loop"]
        return []

    def lookup(self, b, pkg, every):
        """the name by which the element is looked up among the elements of the package"""
        if b.op == "mcall" and b.a[0] is pkg and b.a[1] == "find":
            return b.a[2]
        if b.op in ("dget", "item", "sub", "idx") and isinstance(b.a[0], T) and b.a[0].op == "obj":
            src = self.fl.local(b.a[0])
            el = mk("elem", every)
            if len(src) == 1 and src[0][1] is attr(el, "name") and src[0][2] is el:
                rest = [p for p in parts(src[0][0]) if p.op != "loop" and not (p.op in ("nn", "inst") and p.a[0] is pkg)]
                if not rest:
                    return b.a[1]
        return None


# ------------------------------------------------------------------ configuration
def counted(t):
    """the list whose positions are counted: range(len(list))"""
    if t.op == "call" and t.a[0] == "range" and len(t.a) == 2 and isinstance(t.a[1], T) and t.a[1].op == "call" and t.a[1].a[0] == "len":
        return t.a[1].a[1]
    return None


def norm(t, memo=None):
    """one form for the accesses to a configuration table"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    a = tuple(norm(x, memo) if isinstance(x, T) else x for x in t.a)
    r = None
    if t.op == "mcall" and a[1] == "get" and len(a) >= 3:
        r = mk("get", a[0], a[2])
    elif t.op == "dget":
        r = mk("get", a[0], a[1])
    elif t.op == "item" and len(a) == 2 and is_const(a[1]) and isinstance(cval(a[1]), str):
        r = mk("get", a[0], a[1])
    elif t.op == "item" and len(a) == 2 and isinstance(a[0], T) and a[0].op == "pair":
        r = mk("key" if a[1] is C(0) else "val", a[0].a[0])
    elif t.op == "item" and len(a) == 2 and isinstance(a[1], T) and a[1] is mk("elem", a[0]):
        r = mk("val", a[0])
    elif t.op == "elem" and a[0].op == "mcall" and a[0].a[1] == "items":
        r = mk("pair", a[0].a[0])
    elif t.op == "elem" and a[0].op == "mcall" and a[0].a[1] == "values":
        r = mk("val", a[0].a[0])
    elif t.op == "elem" and a[0].op == "mcall" and a[0].a[1] == "keys":
        r = mk("key", a[0].a[0])
    elif t.op in ("item", "idx", "sub") and len(a) == 2 and isinstance(a[1], T) and a[1].op == "elem" and counted(a[1].a[0]) is a[0]:
        r = mk("elem", a[0])
    elif t.op == "loop" and counted(a[0]) is not None:
        r = mk("loop", counted(a[0]))
    elif t.op == "loop" and a[0].op == "mcall" and a[0].a[1] in ("items", "values", "keys"):
        r = mk("loop", a[0].a[0])
    elif t.op == "phi":
        from sa.terms import phi
        r = phi(*a)
    elif t.op == "and":
        r = conj(*a)
    elif t.op == "or":
        r = disj(*a)
    elif t.op == "not":
        r = neg(a[0])
    if r is None:
        r = mk(t.op, *a) if any(isinstance(x, T) for x in a) else t
    memo[t] = r
    return r


class Configs:
    """create_document, create_document_mapping and load_config store what they were given"""

    def __init__(self, s, rep, ma):
        self.rep = rep
        self.ws = s.prog.cls("Workspace")
        self.ma = ma

    def run(self):
        p = param
        self.at = "Workspace.create_document"
        self.method("create_document", "documents", [], {"file_path": ("is", p("file_path")),
                                                         "package_refs": ("some", p("packages"))})
        self.at = "Workspace.create_document_mapping"
        self.method("create_document_mapping", "document_mappings", [],
                    {"package_ref": ("is", p("package_ref")), "element_types": ("is", p("element_types")),
                     "suffix_filters": ("some", p("suffix_filters"))})
        self.at = "Workspace.load_config"
        top = self.table("document")
        if top is not None:
            cfg = mk("val", top)
            self.method("load_config", "documents", [mk("loop", top)],
                        {"file_path": ("is", mk("fstr", mk("key", top), C(".arxml"))),
                         "package_refs": ("some", mk("get", cfg, C("packages")))}, (top, cfg))
        top = self.table("document_mapping")
        if top is not None:
            cfg = mk("val", top)
            self.method("load_config", "document_mappings", [mk("loop", top)],
                        {"package_ref": ("is", mk("get", cfg, C("package_ref"))),
                         "element_types": ("types", mk("get", cfg, C("element_types"))),
                         "suffix_filters": ("some", mk("get", cfg, C("suffix_filters")))}, (top, cfg))

    def table(self, name):
        r = self.ma.run(self.ws, self.ws.lookup("load_config"))
        for g, e in Flows(r).flat:
            for x in walk(norm(g)):
                if x.op == "get" and x.a[1] is C(name) and x.a[0].op == "call":
                    return x
        self.rep.skip(f"load_config: the table {name} is not recognised")
        return None

    def method(self, fname, coll, want, fields, tables=()):
        r = self.ma.run(self.ws, self.ws.lookup(fname))
        if r.failed:
            self.rep.skip(f"{fname}: {r.failed}")
            return
        self.fl = Flows(r)
        self.tables = tables
        stored = []
        try:
            for g, e in self.fl.flat:
                if e.kind == "mcall" and e.data[0] is attr(ME, coll) and e.data[1] == "append" and len(e.data[2]) == 1:
                    for g2, ts in self.fl.expand(g, [e.data[2][0]]):
                        stored.append((norm(g2), ts[0]))
            if not stored:
                if any(e.kind == "mcall" and e.data[0] is attr(ME, coll) or e.kind == "setattr" and e.data[:2] == (ME, coll)
                       for g, e in self.fl.flat):
                    self.rep.skip(f"{fname}: how {coll} is filled")
                else:
                    self.rep.find(f"{fname}:{coll}", f"{fname} stores nothing in {coll}", self.at)
                return
            if len(stored) > 1:
                self.rep.skip(f"{fname}: {coll} is filled at several places")
                return
            g, obj = stored[0]
            self.rep.count("configurations stored")
            if self.restrict(f"{fname}:{coll}:stored", f"an entry of {coll}", g, want):
                self.rep.ok()
            for a, (how, v) in fields.items():
                self.field(f"{fname}:{coll}:{a}", f"{a} of an entry of {coll}", obj, a, how, v)
        except Unclear as ex:
            self.rep.skip(f"{fname}: {ex}")

    def free(self, p, v=None):
        """conditions that leave nothing out: presence of a table, types of the value"""
        q = p.a[0] if p.op == "not" else p
        subj = q.a[0] if q.op in ("nn", "truthy", "inst") else q.a[1] if q.op == "in" and len(q.a) > 1 else None
        if q.op == "in":
            return True
        if q.op == "exc" or q.op == "eq":
            return p.op == "not" and q.op == "exc"
        if v is not None and subj is v:
            return True
        if q.op in ("nn", "truthy") and p.op != "not" and any(subj is t for t in self.tables):
            return True
        return False

    def restrict(self, key, what, g, want, v=None):
        ps = [p for p in parts(g) if p not in want]
        bad = [p for p in ps if not self.free(p, v)]
        if any(unclear(x) or x.op == "or" for x in bad):
            self.rep.skip(f"{what}: condition {show(conj(*bad))[:160]}")
            return False
        if bad:
            self.rep.find(key, f"{what} is kept only when {show(conj(*bad))[:200]}", self.at)
            return False
        if any(w not in parts(g) for w in want):
            self.rep.skip(f"{what}: condition {show(g)[:160]}")
            return False
        return True

    def value(self, obj, a):
        v = None
        for g, e in self.fl.flat:
            if e.kind == "setattr" and e.data[0] is obj and e.data[1] == a:
                v = e.data[2]
        return v

    def held(self, v, depth=0):
        """(guard, value) of what a list holds"""
        res = []
        for g, x in leaves(v):
            x = strip(x)
            b = self.fl.local(x)
            if b is not None:
                for g2, k, y in b:
                    for g3, ts in self.fl.expand(conj(g, g2), [y]):
                        res += self.members(g3, project(ts[0]), depth)
            elif x.op == "tup":
                res += [(norm(g), norm(y)) for y in x.a]
            elif x is NONE:
                continue
            else:
                res.append((norm(conj(g, mk("loop", x))), norm(mk("elem", x))))
        return res

    def members(self, g, y, depth):
        """an entry taken from one of several lists is an entry of each of them"""
        y = norm(y)
        if y.op != "elem" or y.a[0].op != "phi" or depth > 3:
            return [(norm(g), y)]
        lp = mk("loop", y.a[0])
        parts = [p for p in (g.a if g.op == "and" else (g,)) if p is not lp and norm(p) is not norm(lp)]
        res = []
        for c, x in leaves(y.a[0]):
            for g2, v in self.held(x, depth + 1):
                h = conj(*parts, c, g2)
                if h is not FALSE:
                    res.append((norm(h), v))
        return res

    def field(self, key, what, obj, a, how, v):
        val = self.value(obj, a)
        if val is None:
            self.rep.skip(f"{what}: not set in a recognised way")
            return
        if how == "is":
            if norm(val) is v:
                self.rep.ok()
            elif unclear(val) or val.op not in ("attr", "elem", "sym", "c", "fstr", "item", "get", "mcall"):
                self.rep.skip(f"{what} is {show(val)[:160]}")
            else:
                self.rep.find(key, f"{what} is {show(norm(val))[:160]} instead of {show(v)[:120]}", self.at)
            return
        wrap = (lambda x: x) if how == "some" else (
            lambda x: x.a[1] if x.op in ("getattr",) and len(x.a) >= 2 and isinstance(x.a[1], T) else
            x.a[2] if x.op == "call" and x.a[0] == "getattr" and len(x.a) >= 3 else x)
        src = self.held(val)
        one = [(g, x) for g, x in src if wrap(x) is v]
        all_ = [(g, x) for g, x in src if wrap(x) is mk("elem", v)]
        rest = [(g, x) for g, x in src if wrap(x) is not v and wrap(x) is not mk("elem", v)]
        for g, x in rest:
            if x.op in ("c", "attr", "sym", "item", "elem", "get") and not unclear(x):
                self.rep.find(key, f"{what} holds {show(x)[:160]}, which is not configured", self.at)
            else:
                self.rep.skip(f"{what} holds {show(x)[:160]}")
            return
        is_str = mk("inst", v, mk("ext", "str"))
        for g, x in one:
            self.restrict(key, f"{what} (a single string)", g, [p for p in parts(g) if p.op == "loop"], v)
        for g, x in all_:
            self.restrict(key, f"{what} (a list)", g, [p for p in parts(g) if p.op == "loop"], v)
        if not any(conj(g, is_str) is not FALSE for g, x in one):
            self.rep.find(key + ":single", f"{what} does not hold a value given as a single string", self.at)
        elif any(conj(g, neg(is_str)) is not FALSE for g, x in one):
            self.rep.skip(f"{what}: a single value that is not a string")
        else:
            self.rep.ok()
        if not any(conj(g, neg(is_str)) is not FALSE for g, x in all_):
            self.rep.find(key + ":list", f"{what} does not hold the values given as a list", self.at)
        else:
            self.rep.ok()


def run(s, rep):
    f = Files(s, rep)
    f.run()
    Configs(s, rep, f.ma).run()
