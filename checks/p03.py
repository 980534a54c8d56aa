"""
P03: what the writer emits for a model object is read back as an equal object.

For every pair (writer unit, reader unit) reachable from the dispatch tables
the reader's abstract semantics is evaluated on the abstract element tree that
the writer emits; each attribute of the object the reader builds must be the
attribute of the written object, on every path.
"""
from rules import enums, markup, mixed, roundtrip

RULE = ("abstract interpretation of the reader over the element tree the writer emits: for each writer/reader pair and "
        "each attribute of the class the reader builds, the value read must be the written attribute under every "
        "guard (lost = read as absent although present; mismatch = other attribute, other codec or other class); "
        "enumeration tables are compared exhaustively")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = [
        "attributes hold values of their declared or constructor-checked types",
        "rounding by number format hints (ValueFormat) is presentation chosen by the user",
        "pairs and attributes listed under undecided_items are not decided",
    ]
    rep.count("pairs", len(s.composer.results))
    roundtrip.problems(s, rep)
    done = mixed.run(s, rep)
    roundtrip.attributes(s, rep, done=done)
    rep.floor("writer/reader pairs", len(s.composer.results), 180)
    rep.floor("attributes decided", rep.discharged, 700)
    enums.run(s, rep)
    markup.balance(s, rep)
    markup.escaping(s, rep)
