"""P01: on every path of every writer method the emitted markup is one balanced, correctly nested tree."""
from rules import markup

RULE = ("abstract interpretation of every writer method down to the characters it sends to the output stream; a "
        "lexer over the symbolic text tracks the stack of open elements on every path (branches are split, loops must "
        "restore the stack): every start tag is closed once, innermost first, by an end tag of the same name; names are "
        "XML names, no attribute is repeated, and each entry point emits at most one root element on any path")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = ["attributes hold values of their declared or constructor-checked types",
                       "paths that end in an exception are outside",
                       "the tag given to the single-element writing function by its caller is an XML name"]
    markup.balance(s, rep)
