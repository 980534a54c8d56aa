"""
P19: the documents of a workspace hold what was assigned to them.
"""
from rules import documents

RULE = ("write_documents, followed symbolically with the element library opaque: exactly one write per configured document and per "
        "matching element of a mapping, to the configured name under the document root, of a document made for that file with the "
        "requested schema version, holding copies of exactly the packages and elements selected, each at its own path; every other "
        "condition on a write or on a content is reported; create_document, create_document_mapping and load_config store what they "
        "are given")


def run(s, rep):
    rep.rule = RULE
    rep.assumptions = ["find, make_packages, append and ref of packages do what P09 and P10 establish",
                       "element names are unique within a package"]
    documents.run(s, rep)
    rep.floor("files written", rep.counts.get("files written", 0), 2)
    rep.floor("objects put into documents", rep.counts.get("objects put into documents", 0), 3)
