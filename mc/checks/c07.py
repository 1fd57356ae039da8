# coding=utf-8
"""C07: the exported file, read by an independent parser, says exactly what the diagram holds."""
from mc import docs, history, lib, model
from mc.checks import c05
from mc.core import same

RULE = ("the diagrams of every document family of C03 and of every history of construction calls, process table, extended and laid-out diagram of C05 "
        "are exported; the file is read with an independent expat reader that accepts only the BPMN vocabulary, checks "
        "uniqueness of ids, shapes and edges and resolution of references, and is compared element by element with the "
        "diagram")
BOUND = {"quick": "documents as C03 quick, histories of 4 operations", "thorough": "documents as C03 thorough, histories of 5"}
ASSUMPTIONS = ["at most one flow per ordered pair of elements", "ids do not end in _gui (suffix of generated ids)"]
FAMS = ["node", "flow", "graph", "nest", "process", "pool", "lane", "text", "ids", "geo", "size", "dev", "alias"]


def cases(tier):
    for c in c05.api_cases(tier):
        yield c
    for c in c05.other_cases(tier):
        yield c
    for c in docs.cases(tier, FAMS):
        yield c


def run(case, ctx):
    d = c05.make(case, ctx)
    s = model.snapshot(d)
    data = lib.export(d, ctx.dir())
    check_file(data, s)
    ctx.step(1 + len(s["nodes"]) + len(s["flows"]))
    ctx.state(repr(case))
    ctx.trace()
    ctx.outcome("extended" if "then" in case else case.get("f", "table" if "csv" in case else "api"))


def check_file(data, s):
    doc = model.parse(data)
    model.check_references(doc, s)
    same("exported file", model.expected(doc), model.after_round_trip(s))
