"""
P25: applying a template creates its element once, in the package of its role.
"""
from rules import templates

RULE = ("Workspace.apply, followed symbolically with the template's methods and the element library opaque: the package is the one of "
        "the template's namespace and role; create is called once, exactly when the package does not have the element, with the package, "
        "the workspace, the dependencies and the caller's arguments; its result is put into that package exactly when append_to_package "
        "is set, and returned; every dependency is applied before and handed over under its reference")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = ["find, make_packages and append do what P09 and P10 establish", "create of a template is user code"]
    templates.run(s, rep)
    rep.floor("steps checked", rep.counts.get("template steps", 0), 0)
