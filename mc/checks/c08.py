# coding=utf-8
"""C08: export without diagram data holds the same processes and no drawing."""
from mc import docs, lib, model
from mc.checks import c05
from mc.core import fail, same

RULE = ("the diagrams of every document family of C03 and of every history of construction calls, process table and extended diagram of C05 are exported without "
        "diagram data; the file is read with an independent parser and compared with the diagram (minus geometry, pools, "
        "message flows and lanes) and with the full export")
BOUND = {"quick": "documents as C03 quick, histories of 4 operations", "thorough": "documents as C03 thorough, histories of 5"}
ASSUMPTIONS = ["at most one flow per ordered pair of elements"]
FAMS = ["node", "flow", "graph", "nest", "process", "pool", "lane", "text", "ids", "size", "dev", "alias"]


def cases(tier):
    for c in c05.api_cases(tier):
        yield c
    for c in c05.other_cases(tier, False):
        yield c
    for c in docs.cases(tier, FAMS):
        yield c


GEO = ("x", "y", "width", "height", "isExpanded", "waypoints")


def project(s):
    c = s["collaboration"]
    pools, msgs = (set(c["participants"]), set(c["messageFlows"])) if c else (set(), set())
    return {"processes": {k: {a: b for a, b in v.items() if a != "laneSet"} for k, v in s["processes"].items()},
            "nodes": {k: {a: b for a, b in v.items() if a not in GEO} for k, v in s["nodes"].items() if k not in pools},
            "flows": {k: {a: b for a, b in v.items() if a not in GEO} for k, v in s["flows"].items() if k not in msgs},
            "sequence_flows": s["sequence_flows"]}


def run(case, ctx):
    d = c05.make(case, ctx)
    s = model.snapshot(d)
    out = ctx.dir()
    doc = model.parse(lib.export(d, out, "nodi.bpmn", no_di=True), no_di=True)
    if doc["collaboration"] is None:
        model.check_references(dict(doc, collaboration=None), dict(s, collaboration=None, flows={
            k: v for k, v in s["flows"].items() if k in s["sequence_flows"]}))
    got, want = model.expected(doc), model.after_round_trip(s)
    same("export without diagram data", project(got), project(want))
    full = model.expected(model.parse(lib.export(d, out, "full.bpmn")))
    same("export without diagram data, compared with the full export,", project(got), project(full))
    if model.snapshot(d) != s:
        fail("export changed the diagram")
    ctx.step(2 + len(s["nodes"]) + len(s["flows"]))
    ctx.state(repr(case))
    ctx.trace()
    ctx.outcome("extended" if "then" in case else case.get("f", "table" if "csv" in case else "api"))
