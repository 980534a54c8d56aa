"""Verdicts of the writer/reader composition, one obligation per class attribute."""
from sa.terms import show, T


def owner(ca, cls, a):
    """the most general class whose constructor defines the attribute"""
    o = cls
    for c in cls.mro:
        if hasattr(c, "mro") and a in ca.get(c).entries:
            o = c
    return o


def text(det):
    out = []
    for x in det:
        out.append(x if isinstance(x, str) else " / ".join(show(y)[:200] if isinstance(y, T) else str(y) for y in x))
    return "; ".join(out)[:700]


def problems(s, rep):
    """pairs that could not be composed or that the reader refuses"""
    for key, r in s.composer.results.items():
        wu, ru, tag = key
        where = f"{wu.f.where} -> {ru.f.where}"
        for kind, msg in r.problems:
            if kind == "undecided":
                rep.skip(f"{r.name}: {msg}")
            else:
                rep.find(f"{kind}:{wu.f.name}:{ru.f.name}", f"<{tag}> written by {wu.f.name}: {msg}", where)
        if not r.classes and not r.problems:
            rep.skip(f"{r.name}: no object built")


def attributes(s, rep, select=lambda cls, a: True, done=()):
    ca = s.ctors
    per = {}
    for key, r in s.composer.results.items():
        wu, ru, tag = key
        where = f"{wu.f.where} -> {ru.f.where}"
        for cls, d in r.classes.items():
            rep.count("classes")
            for a, (verdict, det) in d.items():
                if verdict == "undecided" and (r, cls, a) in done:
                    continue
                if select(cls, a):
                    per.setdefault((owner(ca, cls, a), a), []).append((verdict, det, cls, r, where))
    for (own, a), lst in per.items():
        bad = [x for x in lst if x[0] in ("lost", "mismatch")]
        whole = len(lst) > 3 and len(bad) == len(lst) and len({x[2] for x in lst}) > 1
        for verdict, det, cls, r, where in lst:
            if verdict == "ok":
                rep.ok()
                rep.sample(f"{r.name}: {cls.name}.{a} read back unchanged")
            elif verdict == "undecided":
                rep.skip(f"{r.name}: {cls.name}.{a}: {text(det)[:160]}")
            elif whole:
                rep.find(f"{verdict}:{own.name}.{a}", f"{a} of every {own.name} is {verdict} when written and read back",
                         where, text(det))
            else:
                rep.find(f"{verdict}:{cls.name}.{a}",
                         f"{cls.name}.{a} is {verdict} when <{r.tag}> is written and read back", where, text(det))
