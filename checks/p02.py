"""P02: model text reaches the output stream only escaped."""
from rules import markup

RULE = ("taint analysis: every value that reaches the output stream on any path of any writer method is a program "
        "constant, a number format, an enumeration name, or passes an escaping function that covers the characters "
        "which are markup at that place (content: & <; attribute value: & < and the quote used)")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = ["library escaping functions escape what their documentation says",
                       "tag names given by the caller of the single-element writing function are not model text",
                       "characters that XML cannot represent at all (control characters) are outside"]
    markup.escaping(s, rep)
