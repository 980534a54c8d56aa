"""
P24: namespaces, package maps and behavior settings take effect as configured.
"""
from rules import roles

RULE = ("create_namespace, get_package_ref_by_role, create_package_map, load_config and the methods of the behavior settings, followed "
        "symbolically: the namespace object that is stored is put in place of the lookup, and the reference of a role must come out as "
        "the normalised join of the base reference and the path the role was given; every entry of a map or a table is stored, under "
        "its own key, whatever the values; no further condition stores, drops or refuses an entry")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = ["base references begin with a slash", "make_packages, find and append do what P09 and P10 establish"]
    roles.run(s, rep)
    rep.floor("configurations checked", rep.counts.get("settings methods", 0), 0)
