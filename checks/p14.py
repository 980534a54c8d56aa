"""
P14: one document never influences the next.

Upward-exposed reads over the call graphs of the reader and the writer, calls through
dispatch tables included; module level and class level state is covered by escape analysis.
"""
from rules import state

RULE = ("for every public read and write operation and every attribute of the reader or writer that some operation changes: on "
        "every path the attribute is assigned (or the collection cleared) before any code reachable from the operation uses it; "
        "no function of these modules changes or keeps a module level object, class level object or parameter default")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = ["attributes assigned only by the constructor are configuration",
                       "a call through a variable or table may reach any method that is used as a value"]
    state.run(s, rep)
    rep.floor("methods", rep.counts.get("methods", 0), 400)
    rep.floor("operations", rep.counts.get("operations", 0), 7)
    rep.floor("state", rep.counts.get("attributes changed by operations", 0), 8)
