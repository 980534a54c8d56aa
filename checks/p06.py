"""P06: child elements and attributes have schema names and stand in schema order."""
from rules import order

RULE = ("abstract interpretation of every writer method gives, per element, the sequence of child elements and the XML "
        "attributes it can emit with their guards; every pair of children that can occur together on some path stands in "
        "the order of the frozen schema table (rules/schema_order.json), and every child, attribute and root element is "
        "in that table")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = ["rules/schema_order.json states the AUTOSAR schema sequences for the supported elements (recorded "
                       "from the writer and reviewed; the XSD itself is not available offline)",
                       "children emitted in one loop are a choice group without order"]
    order.run(s, rep)
