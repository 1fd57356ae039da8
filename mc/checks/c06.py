# coding=utf-8
"""C06: round trip of pools, message flows and lanes."""
from mc import docs, history, lib, model
from mc.checks import c05
from mc.core import same

RULE = ("every document of the families pool (pool attribute products, every ordered pair of message flow ends over nodes, "
        "nested nodes, pools with and without process, all pairs of such message flows), lane (all forests of lanes in "
        "1-3 processes, lane attribute products), dev, text, ids, geo, size is imported, exported and re-imported, and "
        "exported and re-imported again; so are documents extended by construction calls; pools, message flows, lanes and their parents are compared each time")
BOUND = {"quick": "lane forests <= 5, message flow pairs 1-2, deviations <= 3, sizes <= 100",
         "thorough": "lane forests <= 7, deviations <= 4, sizes <= 200"}
ASSUMPTIONS = ["ids are unique, at most one flow per ordered pair of elements"]
FAMS = ["pool", "lane", "ids", "geo", "text", "size", "dev", "alias"]


def cases(tier):
    for c in docs.cases(tier, FAMS):
        if c["f"] == "geo" and c["what"] not in ("lane", "pool", "black", "msg"):
            continue
        if c["f"] == "size" and c["what"] not in ("lanes", "lanedepth", "pools", "messages", "refs", "processes"):
            continue
        yield c
    for c in history.extension_cases(tier):       # construction calls must not disturb pools, message flows and lanes
        if "f" in c:
            yield c


def project(s):
    c = s["collaboration"]
    pools, msgs = (set(c["participants"]), set(c["messageFlows"])) if c else (set(), set())
    return {"collaboration": c, "lanes": {k: v["laneSet"] for k, v in s["processes"].items()},
            "messages": {k: v for k, v in s["flows"].items() if k in msgs},
            "pools": {k: v for k, v in s["nodes"].items() if k in pools or v["type"] == "participant"},
            "refs": {k: [[x for x in v[a] if x in msgs] for a in ("incoming", "outgoing")]
                     for k, v in s["nodes"].items() if k not in pools},
            "plane": s["plane"]}


def run(case, ctx):
    d = c05.make(case, ctx)
    first = project(model.snapshot(d))
    for i in range(2):
        out = ctx.dir()
        b = lib.export(d, out)
        same("collaboration and lanes in the exported file", project(model.expected(model.parse(b))), first)
        d = lib.load_file(out + "out.bpmn")
        same("collaboration and lanes after re-import %d" % (i + 1), project(model.snapshot(d)), first)
    ctx.step(6)
    ctx.state(repr(case))
    ctx.trace()
    ctx.outcome("extended" if "then" in case else case["f"])
