"""
P10: short names stay unique within their container.

Every constructor and public method of a class that holds packages or package
elements is evaluated symbolically. On every path that adds an element, the path
on which its name is already in the container's name index must end in a raise,
and the index must be updated together with the list.
"""
from rules import names

RULE = ("for every value v added to a list of packages or package elements: the path on which v.name is in the name index "
        "raises before the addition, and otherwise index[v.name] = v; an index entry is made only with an addition; no method "
        "returns an exception instead of raising it; no code outside the class changes the list or the index")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = ["the name of an element is not assigned after it has been added"]
    names.run(s, rep)
    rep.floor("named containers", rep.counts.get("named containers", 0), 3)
    rep.floor("insertions", rep.counts.get("insertions", 0), 7)
    rep.floor("methods", rep.counts.get("methods", 0), 15)
