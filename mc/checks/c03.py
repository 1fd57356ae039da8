# coding=utf-8
"""C03: import(serialize(doc)) equals the reference import of doc, for every document of the bounded families."""
from mc import docs, lib, model
from mc.core import same

RULE = ("every document of the families node (all attribute/default products of every node type at nesting depth 0-2, all "
        "event definition lists), flow, graph (all digraphs on up to 3 nodes, every listing mode), nest (all forests of "
        "sub-processes), process, pool, lane (all forests of lanes), dev (all subsets of deviations from a document with "
        "every element kind), text (every text site x text alphabet), ids, geo, size; a case is distinct by its content")
BOUND = {"quick": "graphs <= 4 nodes, forests <= 5, definitions <= 3, deviations <= 3, sizes <= 100",
         "thorough": "graphs <= 4 nodes (all listing modes), forests <= 7, definitions <= 4, deviations <= 4, sizes <= 200"}
ASSUMPTIONS = ["ids are unique in a file, references resolve, at most one flow per ordered pair of elements",
               "the reference import (mc/model.py: expected) is the trusted oracle"]
FAMS = ["node", "flow", "graph", "nest", "process", "pool", "lane", "dev", "text", "ids", "geo", "size", "alias"]


def cases(tier):
    return docs.cases(tier, FAMS)


def run(case, ctx):
    doc = docs.build(case)
    data = model.serialize(doc)
    d = lib.load(data, ctx.scratch + "/in.bpmn")
    got, want = model.snapshot(d), model.expected(doc)
    same("imported diagram", got, want)
    for pid, p in d.process_elements.items():
        if p.get("node_ids") is not None:
            same("nodes recorded for process " + pid, sorted(p["node_ids"]),
                 sorted(n for n, a in want["nodes"].items() if a["process"] == pid and a["type"] != "participant"))
    ctx.step(1 + len(want["nodes"]) + len(want["flows"]))
    ctx.state(data)
    ctx.trace()
    ctx.outcome(case["f"])
