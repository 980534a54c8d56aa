"""
P07: every element kind is written under its own tag and read back as itself.

Rules: (1) every concrete class an attribute or collection accepts is handled by
the writer unit it is handed to; (2) every class that travels through a dispatch
table is written under a tag the corresponding reader table maps back to the
same class; (3) a failed table look-up ends in an error or a report; (4) where
an attribute accepts several kinds, the composition of writer and reader gives
back the kind that was written.
"""
from sa.program import ClassInfo
from rules import dispatch, mixed, roundtrip

RULE = ("exhaustiveness of class dispatch: for each attribute (or list item) of each class the writer handles, each concrete "
        "class the constructor admits is substituted into the path conditions of the writer unit and must reach a write; "
        "each entry of the paired dispatch tables is followed from class to emitted tag to reader unit to built class; "
        "each look-up must have an error or report on its miss path")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = ["attributes hold values of the types their constructor admits",
                       "classes that are neither created in the library nor leaves of the hierarchy are abstract"]
    dispatch.run(s, rep)
    rep.floor("attribute kinds", rep.counts.get("attribute kinds", 0), 500)
    rep.floor("table entries", rep.counts.get("table entries", 0), 33)
    rep.floor("table look-ups", rep.counts.get("table look-ups", 0), 10)

    def several(cls, a):
        ts = dispatch.flat_types(s.ctors.attr_type_first(cls, a) if a in s.ctors.get(cls).entries else ())
        ks = set()
        for t in ts:
            if isinstance(t, ClassInfo) and not t.is_enum:
                ks |= dispatch.concrete(s, t)
        return len(ks) > 1
    roundtrip.attributes(s, rep, several, mixed.run(s, rep))
