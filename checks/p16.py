"""
P16: objects never share mutable state by default.

Escape analysis of everything that exists once (parameter defaults, class level and
module level objects, cached results), and of the collections constructors are given.
"""
from rules import shared

RULE = ("a mutable parameter default, class level object, module level object or cached result is never changed, stored in an "
        "object, or (a default) returned, in the function or in those it is passed to; and for every constructor parameter "
        "that may be a list or dictionary, no attribute is the passed collection itself")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = ["functions outside the library do not change the collections passed to them"]
    shared.run(s, rep)
    rep.floor("functions", rep.counts.get("functions", 0), 800)
    rep.floor("collection parameters", rep.counts.get("collection parameters", 0), 120)
    rep.floor("defaults", rep.counts.get("defaults", 0), 400)
