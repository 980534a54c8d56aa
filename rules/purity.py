"""
Effects of operations that should have none: what writing, looking up and generating
change in objects that were there before, and what besides the model the text written
could depend on (points-to analysis over the call graph of these operations).
"""
import ast
from sa.program import ClassInfo, FuncInfo
from sa.points import Points, MODEL
from rules import state

XML = ("autosar.xml.element", "autosar.xml.reference", "autosar.xml.document")
# names whose value differs between runs, processes or machines
VARIES = {"id", "hash", "object", "input", "globals", "locals", "time", "datetime", "random", "secrets", "uuid", "os.environ", "os.getenv",
          "os.getcwd", "os.getpid", "os.urandom", "os.getlogin", "os.listdir", "os.scandir", "os.walk", "os.stat", "os.path.getmtime",
          "os.path.abspath", "os.path.exists", "os.path.isfile", "os.path.realpath", "pathlib.Path.cwd", "socket", "platform", "locale",
          "getpass", "threading.get_ident", "multiprocessing", "sys.argv", "sys.path", "sys.getrefcount", "gc", "tempfile", "weakref",
          "inspect", "traceback", "glob"}
MEMO = ("cache", "lru_cache", "cached_property", "functools.cache", "functools.lru_cache", "functools.cached_property")
QUERY = ("find", "get_", "ref", "filter", "is_", "has_", "__str__", "__eq__", "__len__", "__iter__", "__contains__", "__hash__", "__repr__")


def varies(d):
    parts = d.split(".")
    return any(".".join(parts[:i]) in VARIES for i in range(1, len(parts) + 1))


def attributes(classes):
    res = set()
    for c in classes:
        for f in c.methods.values():
            me = f.pos[0] if f.pos else None
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                    res.add(n.attr)
    return res


def judge(rep, what, pt, spare=()):
    """no effect on what was there before, no state kept in shared objects"""
    for f in pt.calls:
        rep.count(f"functions reached when {what}")
    loaded = {n.attr for f in pt.calls for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)}
    bad = {f for f, _ in pt.effects} | {f for f, _ in pt.sharedfx}
    for (f, _), e in sorted(pt.effects.items(), key=lambda x: (x[0][0].qual, x[0][1])):
        if e.attr in spare and e.attr not in loaded:
            rep.ok()
            continue
        rep.find(f"changes:{f.qual}:{e.what}", f"{what} changes the model: {f.qual} changes an object that was there before",
                 f"{f.module.relpath}:{e.node.lineno}", e.what)
    for (f, w), n in sorted(pt.sharedfx.items(), key=lambda x: (x[0][0].qual, str(x[0][1]))):
        rep.find(f"shared:{f.qual}:{w[-1]}", f"{what} changes the module or class level object {w[-1]} in {f.qual}",
                 f"{f.module.relpath}:{n.lineno}")
    for f in pt.calls:
        if f not in bad:
            rep.ok()
    for k in pt.unresolved:
        rep.skip(f"{what}: call not resolved: {k}")


def same(rep, what, pt):
    """nothing but the model decides"""
    for (d, f), n in sorted(pt.externals.items(), key=lambda x: (x[0][0], x[0][1].qual)):
        if varies(d):
            rep.find(f"varies:{f.qual}:{d}", f"{what} depends on {d}, which differs between runs, in {f.qual}",
                     f"{f.module.relpath}:{n.lineno}")
        else:
            rep.ok()
        if d == "open":
            keys = {k.arg for k in n.keywords}
            mode = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == "mode"), None)
            binary = isinstance(mode, ast.Constant) and "b" in str(mode.value)
            if not binary and "encoding" not in keys and len(n.args) < 4:
                rep.find(f"locale:{f.qual}", f"{what}: the encoding of the file is that of the machine, in {f.qual}",
                         f"{f.module.relpath}:{n.lineno}")
            else:
                rep.ok()
    for (f, t), n in sorted(pt.set_order.items(), key=lambda x: (x[0][0].qual, x[0][1])):
        rep.find(f"set-order:{f.qual}:{t}", f"{what} goes through a set, whose order differs between runs, in {f.qual}",
                 f"{f.module.relpath}:{n.lineno}", t)
    for f in pt.calls:
        d = [x for x in f.decorators if x.split("(")[0] in MEMO]
        if d:
            rep.find(f"memo:{f.qual}", f"{what}: {f.qual} remembers its result for an object that can change later", f.where, d[0])
        else:
            rep.ok()


def selfs(f, me, rest=MODEL):
    args = {p: {rest} for p in list(f.pos) + list(f.kwonly)}
    if f.vararg:
        args[f.vararg] = {rest}
    if f.pos and f.cls is not None and not f.is_static:
        args[f.pos[0]] = {me}
    return args


def machine_roots(cls, prefix):
    me = ("self", cls)
    roots = [(f, selfs(f, me)) for c in cls.mro if isinstance(c, ClassInfo) for n, f in c.methods.items() if n == "__init__"]
    ops = {}
    for c in cls.mro:
        if isinstance(c, ClassInfo):
            for n, f in c.methods.items():
                if any(n.startswith(p) for p in prefix):
                    ops.setdefault(n, f)
    return roots + [(f, selfs(f, me)) for f in ops.values()], ops


def run(session, rep):
    prog = session.prog
    xml = [c for c in prog.classes if c.module.name in XML]
    # --- writing with a writer
    w = prog.cls("Writer")
    pt = Points(prog, xml)
    roots, ops = machine_roots(w, ("write_",))
    rep.count("write operations", len(ops))
    pt.run(roots)
    judge(rep, "writing", pt)
    same(rep, "the text", pt)
    rep.floor("functions reached by writing", len(pt.calls), 200)
    state.machine(session, rep, w, ("write_",))
    # --- writing a workspace
    ws = prog.cls("Workspace")
    conf = [c for c in prog.classes if c.module is ws.module and c is not ws and not c.is_sub(prog.cls("PackageCollection"))]
    spare = attributes(conf) - attributes(xml + [ws])
    pt = Points(prog, xml + [c for c in prog.classes if c.module is ws.module])
    ops = {n: f for c in ws.mro if isinstance(c, ClassInfo) for n, f in reversed(c.methods.items()) if n.startswith("write_")}
    pt.run([(f, {f.pos[0]: {MODEL}}) for f in ops.values()])
    judge(rep, "writing the documents of a workspace", pt, spare)
    same(rep, "the text of the documents", pt)
    rep.floor("functions reached by writing documents", len(pt.calls), 200)
    # --- looking up
    both = [c for c in prog.classes if c.module.name in XML or c.module is ws.module]
    pt = Points(prog, both)
    roots = []
    for c in both:
        if c.is_enum:
            continue
        for n, f in c.methods.items():
            if (f.is_property or any(n.startswith(q) for q in QUERY)) and not f.is_abstract:
                roots.append((f, selfs(f, MODEL)))
    rep.count("look-up operations", len(roots))
    pt.run(roots)
    judge(rep, "looking up", pt)
    rep.floor("look-up operations", len(roots), 60)
    # --- generating code
    gen = [c for c in prog.classes if c.module.name.startswith(("autosar.model", "autosar.generator")) and not c.is_enum]
    rt = [c for c in gen if c.module.name.startswith("autosar.model")]
    if any(c.name == "ImplementationModel" for c in gen) and any(c.name == "TypeGenerator" for c in gen):
        im = prog.cls("ImplementationModel")
        pt = Points(prog, both)
        roots, ops = machine_roots(im, ("create_",))
        pt.run(roots)
        judge(rep, "building the implementation model", pt)
        rep.floor("functions reached when building the implementation model", len(pt.calls), 15)
        tg = prog.cls("TypeGenerator")
        pt = Points(prog, rt)
        roots, ops = machine_roots(tg, ("write_", "gen_"))
        pt.run(roots)
        judge(rep, "generating", pt)
        im_roots, _ = machine_roots(im, ("create_",))
        pt2 = Points(prog, rt + both)
        me = ("self", im)
        pt2.run(im_roots + [(f, {p: ({("self", tg)} if p == f.pos[0] else {me} if f.name == "__init__" else {MODEL}) for p in f.pos})
                            for f, _ in roots])
        same(rep, "the generated text", pt2)
        rep.floor("functions reached by generating", len(pt.calls), 10)
    else:
        rep.skip("code generation not found")
