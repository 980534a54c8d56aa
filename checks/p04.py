"""
P04: enumeration tables are inverse to each other, and every numeric, boolean
or enumeration attribute is decoded from the text it is encoded to.
"""
from rules import enums, roundtrip

RULE = ("enumeration tables: extracted and compared exhaustively (total over the members, inverse to each other, "
        "spelled as the member); codecs: symbolic text forms the writer gives a number, boolean or enumeration "
        "attribute, matched per guard with the decoder the reader applies to that text")

SCALARS = {"int", "float", "bool"}


def scalar(ts):
    for t in ts or ():
        if t in SCALARS or getattr(t, "is_enum", False):
            return True
        if isinstance(t, tuple) and len(t) > 1 and not isinstance(t[1], str) and scalar(t[1]):
            return True
    return False


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = [
        "attributes hold values of their declared or constructor-checked types",
        "rounding by number format hints (ValueFormat) is presentation chosen by the user",
    ]
    enums.run(s, rep)
    ca = s.ctors
    n0 = rep.discharged
    roundtrip.attributes(s, rep, lambda cls, a: scalar(ca.attr_type(cls, a)) or scalar(ca.attr_type_first(cls, a)))
    rep.floor("scalar attributes decided", rep.discharged - n0, 90)
