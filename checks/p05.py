"""P05: the reader drops no content silently."""
from rules import unread

RULE = ("abstract interpretation of every reader method (consumed-children typestate): wherever children are told "
        "apart, each is read, reported, refused or deliberately skipped on every path; a child that is looked up is "
        "used; the book-keeping that decides what is reported marks exactly the children that were looked up")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = ["an element that may hold a single kind of child holds no other kind (schema-valid documents)",
                       "a child that the schema allows once occurs once"]
    unread.run(s, rep)
