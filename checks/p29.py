"""
P29: elements made from plain Python data say what the data says.
"""
from rules import factories

RULE = ("each class method that makes a computation, a constraint, a value, a constant, an event, a variable access or a com-spec from "
        "plain data, followed symbolically with the making of nested values opaque and judged for each form of the data (type, tuple "
        "length, marker, empty and zero values, queued or not, one or several elements): the object returned has the documented class, "
        "every part of the data in its documented field and nothing else; forms that are not documented are refused")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = ["constructors store their arguments (P07); references to own elements are what P08 establishes"]
    factories.run(s, rep)
    rep.floor("forms checked", rep.counts.get("forms", 0), 0)
