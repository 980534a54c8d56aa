"""
P30: a part created through its owner is complete and is added to it once.
"""
from rules import owners

RULE = ("each method of an owner that creates a part of it, followed symbolically with construction and the adding methods opaque and "
        "judged for each form of the arguments (absent, zero or empty, text or reference, one or several, com-specs as arguments, as "
        "objects or in a list): exactly one object of the documented class is added to the documented list of the owner, every "
        "argument in its documented field, and the same object is returned; names which the owner does not know are refused")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = ["constructors store their arguments (P07, P12); the adding methods append what they are given (P09)"]
    owners.run(s, rep)
    rep.floor("forms checked", rep.counts.get("forms", 0), 0)
