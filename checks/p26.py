"""
P26: a connector created from two port names joins exactly the named ports.
"""
from rules import wiring

RULE = ("create_connector, followed symbolically with look-ups and construction opaque and judged for each combination of provided and "
        "required ports of components and of the composition: exactly one connector of the fitting kind is added, its ends refer to the "
        "named ports and their components in the roles the ports have; ports of equal direction are not joined, names which are not "
        "there are refused; a component prototype refers to the type it was made from")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = ["find of the workspace, of a component type and ref() do what P09, P10 and P13 establish"]
    wiring.run_connectors(s, rep)
    rep.floor("cases checked", rep.counts.get("connector cases", 0), 0)
