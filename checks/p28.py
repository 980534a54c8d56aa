"""
P28: an access point created from a text is of the kind the text and the port call for.
"""
from rules import wiring

RULE = ("the method which creates access points from texts, followed symbolically with look-ups and construction opaque and judged for "
        "each prefix, each kind of interface and port, with and without an element name and options: one access point of the kind in "
        "the documented table is added, its references hold the named port and element, its name is the given one or holds the prefix "
        "set for it, the port and the element, options reach it and the caller's dictionary is not written; unknown prefixes, ports "
        "and elements and ports that do not allow the access are refused; every method that adds a named part to a runnable makes its "
        "name unique in the list it is added to")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = ["find, get_port_interface and ref() do what P09, P10 and P23 establish"]
    wiring.run_access(s, rep)
    rep.floor("cases checked", rep.counts.get("access cases", 0), 0)
