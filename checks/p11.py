"""
P11: a refused value leaves the object unchanged.

Every append, add, insert, extend, set, update and creation method and every property
setter is evaluated symbolically, with the helpers it calls inlined. No path may lead
from a change of the receiver to an explicit raise.
"""
from rules import atomic

RULE = ("for every store to an attribute of the receiver or change of a collection it holds, and every raise of the same "
        "operation: the path conditions of the store and of a later raise exclude each other, also when the raise happens in a "
        "later round of a loop that contains both")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = ["errors of Python itself (a missing attribute of a foreign object, memory) are not refusals",
                       "an operation that works along several paths (make_packages, create_package_map, apply, load_config) is "
                       "a sequence of operations"]
    atomic.run(s, rep)
    rep.floor("methods", rep.counts.get("methods", 0), 75)
    rep.floor("methods that store and refuse", rep.counts.get("methods that store and refuse", 0), 60)
