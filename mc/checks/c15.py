# coding=utf-8
"""C15: layout routes every flow from its source to its target."""
import bpmn_python.bpmn_diagram_layouter as layouter
from mc import layouts, lib, model
from mc.core import fail, same

RULE = ("every diagram of C14 is laid out; the waypoints of every flow are compared with the route computed from the final "
        "positions and the types of its ends; diagrams with up to three nodes and the structured ones are also exported and "
        "re-imported and their waypoints compared")
BOUND = {"quick": "as C14 quick", "thorough": "as C14 thorough"}
ASSUMPTIONS = ["as C14"]
CPU_LIMIT = 20
G = ("exclusiveGateway", "inclusiveGateway", "parallelGateway")


def cases(tier):
    return layouts.small_cases(tier)


def route(a, b):
    ax, ay, bx, by = int(a["x"]), int(a["y"]), int(b["x"]), int(b["y"])
    aw, ah, bw, bh = int(a["width"]), int(a["height"]), int(b["width"]), int(b["height"])
    start, left, top = (ax + aw // 2, ay + ah // 2), (bx, by + bh // 2), (bx + bw // 2, by)
    if a["type"] in G:
        return [start, (start[0], left[1]), left]
    if ay != by and b["type"] in G:
        return [start, (top[0], start[1]), top]
    return [start, left]


def numbers(wps):
    return [(float(x), float(y)) for x, y in wps]


def run(case, ctx):
    n = layouts.size(case)

    def live(d, k):
        if layouts.rooted(n, layouts.edges(case)[:k]):
            look(d, case, layouts.edges(case)[:k], ctx)
    d = layouts.build(case, ctx.scratch + "/in.bpmn", live if case.get("live") else None)
    ctx.outcome("%d flows" % look(d, case, layouts.edges(case), ctx))
    ctx.trace()
    ctx.state(repr(case))


def look(d, case, es, ctx):
    layouter.generate_layout(d)
    nodes = {k: a for k, a in d.get_nodes()}
    seen = {}
    for u, v, a in d.get_flows():
        want = route(nodes[u], nodes[v])
        got = numbers(a["waypoints"])
        if got != want:
            fail("waypoints of %s -> %s" % (u, v), "got %r" % got, "expected %r" % want)
        seen[a["id"]] = got
        ctx.step()
    same("number of flows", len(seen), len(es))
    if layouts.size(case) != 4 and not ("e" in case and case["n"] > 3):
        p = ctx.dir()
        lib.export(d, p, "o.bpmn")
        d2 = lib.load_file(p + "o.bpmn")
        same("re-imported waypoints", {a["id"]: numbers(a["waypoints"]) for _, _, a in d2.get_flows()}, seen)
        same("re-imported positions", {k: (float(x), float(y)) for k, (x, y) in d2.get_nodes_positions().items()},
             {k: (float(x), float(y)) for k, (x, y) in d.get_nodes_positions().items()})
        ctx.step(2)
    return len(seen)
