"""
P12: every argument reaches the attribute it names.

Each constructor is evaluated once with symbolic arguments through all its base
constructors and helpers; each public method likewise on an arbitrary object.
The condition under which the attribute of the same name holds the argument
must cover every present value of the declared types that is not refused.
"""
from rules import arguments, containment

RULE = ("for every constructor argument p: present(p) and declared type of p and no error implies that the attribute p holds "
        "p (as given, converted, or wrapped), and takes no other argument; a value of each declared type is accepted; every "
        "argument of a public method is used, and reaches the attribute of the same name of the object the method creates; an "
        "append method keeps its argument in a collection of the object or raises")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = ["arguments have their declared types", "a constructor argument not stored under its own name is "
                       "expected in the attributes listed in rules/arguments.py (ALIASES)"]
    arguments.run(s, rep)
    containment.additions(s, rep)
    rep.floor("constructors", rep.counts.get("constructors", 0), 200)
    rep.floor("constructor arguments", rep.counts.get("constructor arguments", 0), 1000)
    rep.floor("methods with arguments", rep.counts.get("methods with arguments", 0), 100)
    rep.floor("append methods", rep.counts.get("append methods", 0), 45)
    rep.floor("created objects", rep.counts.get("created objects", 0), 40)
