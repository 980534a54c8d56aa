"""
P20: output files are closed on every path.

Every function of the library that opens a file, directly or through methods of its own
object, is executed abstractly over the set of open handles; every call can fail.
"""
from rules import handles

RULE = ("for every function that opens a file, directly or through its own methods, and every exit of it (return, end, or an "
        "error raised by any call on the way), the file has been closed by a with statement, a context manager or close()")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = ["assigning attributes and emptying or extending the writer's own lists does not fail",
                       "lxml and cfile close the files they open themselves"]
    handles.run(s, rep)
    rep.floor("functions", rep.counts.get("functions", 0), 4)
    rep.floor("open calls", rep.counts.get("open calls", 0), 2)
