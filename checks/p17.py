"""
P17: generated type definitions follow their dependencies, each once.
"""
from rules import typegen

RULE = ("each step of the generation followed symbolically with the others opaque: a dependency tree for every requested type; the "
        "walk of a tree collects every node, visits every child and puts nodes after the nodes they depend on; the selection takes "
        "each type of the walk once, except base types without native declaration and types of other emitters; every model type the "
        "trees accept gets exactly one definition that reaches the C writer, and every type that definition mentions is a child in "
        "the tree under the same condition")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = ["the C library writes the statements of a sequence in the order in which they were added",
                       "base types without native declaration and types of other emitters are defined elsewhere",
                       "type references of the model contain no cycles (AUTOSAR forbids recursive types)"]
    typegen.run(s, rep)
    rep.floor("kinds of types", rep.counts.get("kinds of types", 0), 0)
