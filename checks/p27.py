"""
P27: an event created by name starts the named runnable on the named port and element.
"""
from rules import wiring

RULE = ("every method which creates an event, followed symbolically with look-ups and construction opaque and judged for each form of "
        "its text and with and without a name: exactly one event of the kind is added and returned, it starts the runnable of the given "
        "name, its instance reference holds the named port (of the direction the event needs), the named element and nothing else, its "
        "name is the given one or is made of the prefix set for this kind, made unique among the events; a missing runnable, port, "
        "element, mode or prefix is refused; the look-ups give the port of the name and direction and the element of the name")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = ["find_runnable, find and ref() do what P09, P10, P13 and P22 establish"]
    wiring.run_events(s, rep)
    rep.floor("cases checked", rep.counts.get("event cases", 0), 0)
