"""
P09: parent links and paths always agree with containment.

Every constructor and public method of a class that can hold identifiable
elements is evaluated symbolically; whatever it puts into such an attribute must
end up with the object as its parent. The reference methods are evaluated on
symbolic elements at several nesting depths and must give the container's path
followed by the element's name.
"""
from rules import containment

RULE = ("for every value v that a constructor or public method of a container puts into an attribute holding identifiable "
        "elements, on every path that does not raise: finally v.parent is the container; for every class with a ref method "
        "and every nesting of it in packages and containers: the path is /outermost/.../name, and there is none unless the "
        "outermost is a document or workspace")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = ["values have their declared types", "attributes are not assigned directly from outside the class",
                       "nesting of packages is evaluated up to six levels, of other containers one level"]
    containment.run(s, rep)
    rep.floor("containers", rep.counts.get("containers", 0), 15)
    rep.floor("insertions", rep.counts.get("insertions", 0), 120)
    rep.floor("classes with a reference", rep.counts.get("classes with a reference", 0), 35)
    rep.floor("paths", rep.counts.get("paths", 0), 230)
