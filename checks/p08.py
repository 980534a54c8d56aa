"""
P08: references keep their target path and a permitted destination type.

The constructor of each reference class is evaluated once with a symbolic
destination; every member of the destination enumeration is then substituted
into its error conditions.  The set it lets through must be the recorded set.
ref() of every element class is evaluated and its destination compared with
the tag the writer gives the element.  Each reader unit that builds a reference
must take the destination from DEST or refuse other values.
"""
from rules import refs, roundtrip

RULE = ("exhaustive substitution of the destination enumeration into the constructor's error conditions, compared with "
        "rules/ref_dest.json; ref() of each element class evaluated and compared with the tag it is written under; "
        "composition of the reference writers and readers")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = ["rules/ref_dest.json records, per reference class, the destination types the schema permits that "
                       "this library models; it was reviewed by hand"]
    refs.run(s, rep)
    base = refs.ref_base(s)
    roundtrip.attributes(s, rep, lambda cls, a: cls.is_sub(base))
    rep.floor("reference classes", rep.counts.get("reference classes", 0), 30)
    rep.floor("self references", rep.counts.get("self references", 0), 35)
    rep.floor("reference readers", rep.counts.get("reference readers", 0), 25)
