"""P22: writing never fails because optional content is absent."""
from rules import writable

RULE = ("abstract interpretation of every writer method over all presence combinations of the attributes of its object: no use "
        "of an attribute that may be absent, no nested writer called for it, no failed assertion and no error that only the "
        "presence of optional content decides")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = ["attributes hold values of their declared types, None where the declaration allows it",
                       "conditions on values (not on their presence) are outside this property"]
    writable.run(s, rep)
