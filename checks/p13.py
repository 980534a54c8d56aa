"""P13: reading tolerates absent and unknown children."""
from rules import tolerant

RULE = ("abstract interpretation of every reader method over all presence combinations of its children: no use of a "
        "child that may be absent, no call whose arguments its signature refuses, no read of an unassigned variable, "
        "no internal error (TypeError, AttributeError, KeyError, assertion) that only the presence and the kinds of "
        "children decide")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = ["text and attribute values of the document have the form the schema demands",
                       "refusals are exceptions raised on purpose (parse error, value error, not implemented)"]
    tolerant.run(s, rep)
