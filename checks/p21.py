"""
P21: the generated type header is a well-formed C header.
"""
from rules import header

RULE = ("the sequence of lines both header methods hand to the C writer, reconstructed from their events: it begins with an include "
        "guard that covers everything, conditional blocks and braces are closed where they were opened, linkage is specified for "
        "C++ only, type definitions are unconditional and follow the included header; both methods give the same lines, and the file "
        "is written into the given directory")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = ["the C library writes the lines of a sequence in the order in which they were added"]
    header.run(s, rep)
    rep.floor("headers", rep.counts.get("headers", 0), 0)
