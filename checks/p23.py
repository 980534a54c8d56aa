"""P23: looking up a name or path gives the element that bears it."""
from rules import lookup

RULE = ("the result of every lookup method as a case distinction over its arguments and the collections of its object: each result "
        "bears the name asked for, nothing is returned only where no searched element bears it, paths are continued with their rest "
        "in the element found, and packages are created along a path exactly where they are missing")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = ["the name index of a package and its lists hold the same elements (P10)",
                       "paths have no empty segments"]
    lookup.run(s, rep)
