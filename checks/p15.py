"""
P15: writing, looking up and generating leave the model unchanged; the text depends on the model only.

Points-to and effect analysis over everything reachable from these operations.
"""
from rules import purity

RULE = ("for everything reachable from the write operations of the writer and the workspace, from the look-up operations of the model "
        "and from building and generating types: no store, deletion or changing container operation is applied to an object that "
        "existed before the operation (objects are tracked through calls, dispatch tables, copies, containers and properties), no "
        "module or class level object is changed; the text uses no clock, random number, environment, identity, hash, set order, "
        "machine encoding, memoised result or attribute left from an earlier operation")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = ["a method called on an object of the model may be any method of that name in the model classes",
                       "code outside the package changes no object handed to it, except documented container operations"]
    purity.run(s, rep)
