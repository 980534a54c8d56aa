"""
P18: implementation data types are modelled by category or refused.
"""
from rules import typemodel

RULE = ("the method that creates model types, followed symbolically and split by the category of the element: the kind of model type, "
        "its name, symbol, emitter and targets, every dimension and member in order with its own type, size and properties; anything "
        "else is refused; the definition generated for a model type is compared with the model type in the same way")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = ["a data type uses the first variant of its data definition properties"]
    typemodel.run(s, rep)
    rep.floor("categories", rep.counts.get("categories", 0), 0)
