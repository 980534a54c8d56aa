"""
P21: the generated header is a well-formed C header.

The sequence of lines handed to the C writer is reconstructed from the events of the generator's public
methods; the definitions of the types are one kind of line in it.
"""
from itertools import product
from sa.terms import T, TRUE, FALSE, is_const, cval, show, walk, conj, neg
from sa.ctor import param
from rules.documents import parts, strip
from rules.typegen import Gen, loops_of

OPEN = ("ifdef", "ifndef", "if_", "if")
TEXTLESS = ("blank", "line_comment", "block_comment", "whitespace", "comment")


class Odd(Exception):
    pass


class Wrong(Exception):
    pass


def const_text(t):
    return cval(t) if is_const(t) and isinstance(cval(t), str) else None


def versions(toks):
    """[(condition, lines)] for every combination of the conditions lines depend on"""
    gs = {c for k, t, c in toks}
    atoms = sorted({a for c in gs for a in atoms_of(c)}, key=lambda a: show(a))
    if len(atoms) > 6:
        raise Odd(f"lines depend on {len(atoms)} conditions")
    res = []
    for bits in product((True, False), repeat=len(atoms)):
        w = conj(*[a if b else neg(a) for a, b in zip(atoms, bits)]) if atoms else TRUE
        if w is FALSE:
            continue
        ls = []
        for k, t, c in toks:
            if conj(c, w) is FALSE:
                continue
            if conj(neg(c), w) is not FALSE:
                raise Odd(f"a line is added when {show(c)[:100]}")
            ls.append((k, t))
        res.append((w, ls))
    return res


def atoms_of(c):
    if c.op in ("and", "or", "not"):
        for x in c.a:
            yield from atoms_of(x)
    elif c is not TRUE and c is not FALSE:
        yield c


class Header(Gen):
    NAME = "Rte_Type.h"

    def check(self):
        toks = {}
        for name in ("write_type_header", "write_type_header_str"):
            if self.gen.lookup(name) is None:
                continue
            got = self.outputs(name)
            if got is None:
                continue
            at = f"TypeGenerator.{name}"
            self.rep.count("headers")
            r, evs, out = got
            sink = [e for g, e in evs if e.kind == "mcall" and e.data[1] in ("write_str", "write_file")][0]
            try:
                toks[name] = self.lines(r, evs, sink.data[2][0])
                vs = versions(toks[name])
            except Wrong as ex:
                self.rep.find(f"{name}:fails", f"{name} always fails: {ex}", at)
                continue
            except Odd as ex:
                self.rep.skip(f"{at}: {ex}")
                continue
            for when, ts in vs:
                if not self.frame(name, at, ts, when):
                    break
            if sink.data[1] == "write_file":
                self.path(name, at, r, sink)
            elif name == "write_type_header_str":
                v = r.value
                if v.op == "mcall" and v.a[1] == "write_str":
                    self.rep.ok()
                elif v.op == "const" or v.op == "c":
                    self.rep.find(f"{name}:result", f"{name} does not return the text of the header", at)
                else:
                    self.rep.skip(f"{at}: returns {show(v)[:80]}")
        if len(toks) == 2:
            a, b = toks.values()
            if [x for x in a if x[0] not in TEXTLESS] == [x for x in b if x[0] not in TEXTLESS]:
                self.rep.ok()
            else:
                self.rep.find("differ", "the header written to a file differs from the one returned as text", "TypeGenerator")

    # ------------------------------------------------------------ the lines
    def lines(self, r, evs, root, depth=0):
        """[(kind, text, condition)] of a sequence"""
        if depth > 6:
            raise Odd("sequences nested too deeply")
        res = []
        if root.op == "obj":
            o = r.heap.get(root)
            if o is None or o.kind != "list":
                raise Odd(f"the sequence is {show(root)[:80]}")
            for g, v in o.items:
                res += self.item(r, evs, g, v, depth)
            return res
        if root.op == "snap":
            for gi in root.a[2:]:
                res += self.item(r, evs, gi.a[0], gi.a[1], depth)
            return res
        if not (root.op == "mcall" and root.a[1] == "sequence"):
            raise Odd(f"the sequence is {show(root)[:80]}")
        for g, e in evs:
            if e.kind not in ("mcall", "listop") or e.data[0] is not root:
                continue
            if e.data[1] in ("append", "extend") and len(e.data[2]) == 1:
                x = e.data[2][0]
                if e.data[1] == "extend" and x.op == "mcall" and x.a[1] != "sequence":
                    raise Wrong(f"a sequence is extended by something that is no sequence ({x.a[1]})")
                res += self.item(r, evs, g, e.data[2][0], depth)
            else:
                raise Odd(f"the sequence is changed by {e.data[1]}")
        return res

    def item(self, r, evs, g, x, depth):
        if loops_of(g):
            return [("def", None, TRUE)]
        if x.op == "phi":
            return self.item(r, evs, conj(g, x.a[0]), x.a[1], depth) + self.item(r, evs, conj(g, neg(x.a[0])), x.a[2], depth)
        if g is FALSE:
            return []
        if x.op == "tup":
            return [z for y in x.a for z in self.item(r, evs, g, y, depth)]
        if x.op == "obj" or x.op == "snap" or x.op == "mcall" and x.a[1] == "sequence":
            return [(k, t, conj(c, g)) for k, t, c in self.lines(r, evs, x, depth + 1)]
        return [(k, t, g) for k, t in self.one(x)]

    def one(self, x):
        if const_text(x) is not None:
            return [("line", const_text(x))]
        if x.op != "mcall":
            raise Odd(f"a line is {show(x)[:80]}")
        k = x.a[1]
        args = [y for y in x.a[2:] if y.op != "kw"]
        if k in TEXTLESS:
            return [(k, None)]
        if k == "endif":
            return [("endif", None)]
        if k == "line" and args:
            y = args[0]
            if y.op == "mcall" and y.a[1] == "extern" and len(y.a) > 2 and const_text(y.a[2]) is not None:
                return [("extern", const_text(y.a[2]))]
            t = const_text(y)
            if t is None:
                raise Odd(f"a line of {show(y)[:60]}")
            s = t.strip()
            if s.startswith("#"):
                w = s[1:].split(None, 1)
                return [(w[0] if w else "#", w[1] if len(w) > 1 else None)]
            if s.startswith("extern") and '"C"' in s:
                rest = s.split('"C"', 1)[1].strip()
                return [("extern", "C")] + ([("line", rest)] if rest else [])
            return [("line", s)]
        if k in ("ifdef", "ifndef", "define", "include", "sysinclude", "undef") and args:
            t = const_text(args[0])
            if t is None:
                raise Odd(f"{k} of {show(args[0])[:60]}")
            return [(k, t)]
        if k == "extern" and args:
            return [("extern", const_text(args[0]))]
        if k in ("statement", "declaration", "typedef", "struct"):
            return [("def", None)]
        raise Odd(f"a line made by {k}")

    # ------------------------------------------------------------ the rules
    def frame(self, name, at, toks, when=TRUE):
        """True: nothing wrong with these lines"""
        rep = self.rep
        cond = "" if when is TRUE else f" when {show(when)[:120]}"
        seen = [t for t in toks if t[0] not in TEXTLESS]
        stack = []
        braces = []
        ndef = 0
        inc = 0
        guard = None
        ended = False
        bad = []

        def find(key, what):
            bad.append(key)
            rep.find(f"{name}:{key}", f"{name}: {what}{cond}", at)
        if len(seen) < 2 or seen[0][0] != "ifndef" or seen[1][0] != "define":
            find("guard", "the header does not begin with an include guard")
        elif seen[0][1] != seen[1][1]:
            find("guard", f"the include guard tests {seen[0][1]} but defines {seen[1][1]}")
        else:
            guard = seen[0][1]
        for i, (k, t) in enumerate(seen):
            if ended:
                find("after", f"{k} {t or ''} follows the end of the include guard".replace("  ", " "))
                break
            if k in OPEN:
                stack.append((k, t))
            elif k == "endif":
                if not stack:
                    find("balance", "a conditional block is closed that is not open")
                    break
                stack.pop()
                if guard is not None and not stack:
                    ended = True
            elif k in ("else", "elif"):
                rep.skip(f"{at}: alternatives of conditional blocks")
                return False
            elif k == "line":
                for ch in t or "":
                    if ch == "{":
                        if not braces and (i == 0 or seen[i - 1][0] != "extern") and (t or "").strip() == "{":
                            find("braces", "a block is opened that belongs to nothing")
                        braces.append(tuple(stack))
                    elif ch == "}":
                        if not braces:
                            find("braces", "a brace is closed that is not open")
                        elif braces.pop() != tuple(stack):
                            find("braces", "a brace is opened and closed under different conditions")
            elif k == "extern":
                if ("ifdef", "__cplusplus") not in stack:
                    find("linkage", "linkage is specified outside the part for C++")
                nx = seen[i + 1] if i + 1 < len(seen) else None
                if t == "C" and (nx is None or nx[0] != "line" or not (nx[1] or "").startswith("{")):
                    find("linkage", "the linkage specification opens no block")
            elif k in ("include", "sysinclude"):
                inc += 1
                if len(stack) > 1:
                    find("include", f"{t} is only included in a conditional part")
            elif k == "define":
                if i != 1 and t == guard:
                    find("guard", "the include guard is defined twice")
            elif k == "def":
                ndef += 1
                if len(stack) > (1 if guard is not None else 0):
                    find("where", "the type definitions are in a conditional part")
                if not inc:
                    find("where", "the type definitions come before the included header they depend on")
            elif k == "undef":
                find("guard", f"{t} is undefined")
        if stack:
            find("balance", "a conditional block is not closed")
        if braces:
            find("braces", "a brace is not closed")
        if not ndef and when is TRUE:
            find("where", "the header holds no type definitions")
        for _ in range(max(0, 8 - len(bad))):
            rep.ok()
        return not bad

    def path(self, name, at, r, sink):
        rep = self.rep
        if len(sink.data[2]) < 2:
            rep.skip(f"{at}: the path of the file")
            return
        p = sink.data[2][1]
        d = [param(q) for q in self.gen.lookup(name).pos if q != "self"][:1]
        q = p
        while q.op == "call" and q.a[0] in ("str", "os.fspath", "os.path.normpath", "os.path.abspath") and len(q.a) == 2:
            q = q.a[1]
        if d and q.op == "call" and q.a[0] == "os.path.join" and len(q.a) == 3 and q.a[1] is d[0] and const_text(q.a[2]) is not None:
            if const_text(q.a[2]) == self.NAME:
                rep.ok()
            else:
                rep.find(f"{name}:file", f"{name} writes {const_text(q.a[2])} instead of {self.NAME}", at)
        elif d and not any(x is d[0] for x in walk(p)):
            rep.find(f"{name}:file", f"{name} does not write into the given directory", at)
        elif d and q.op == "call" and q.a[0] == "os.path.join" and len(q.a) == 3 and q.a[2] is d[0]:
            rep.find(f"{name}:file", f"{name} does not write into the given directory", at)
        elif p is d[0]:
            rep.find(f"{name}:file", f"{name} writes to the directory itself", at)
        else:
            rep.skip(f"{at}: the path {show(p)[:80]}")


def run(s, rep):
    Header(s, rep).check()
