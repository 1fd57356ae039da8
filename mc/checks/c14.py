# coding=utf-8
"""C14: layout places every element once, without overlap, successors to the right."""
import copy

import bpmn_python.bpmn_diagram_layouter as layouter
from mc import layouts, readonly
from mc.core import fail, same

RULE = ("every directed graph (self loops included) with up to four nodes in which every node is reachable from a node without "
        "incoming flows, with all type assignments (up to three nodes) or type patterns (four), node and flow orders, plus "
        "chains, stars, diamonds, nested blocks, ladders, loops, dense graphs and several starts; laid out by the code; the "
        "coordinates are checked against the placement rules, everything else against the state before, and a second layout "
        "against the first")
BOUND = {"quick": "graphs up to 4 nodes (2 type patterns for 4 nodes), structured graphs up to 31 nodes",
         "thorough": "graphs up to 4 nodes (6 type patterns), 5 nodes without self loops, forests of 6 and 7 nodes, "
                     "structured graphs up to 31 nodes"}
ASSUMPTIONS = ["nodes have the default size 100 x 100; no pools or lanes"]
CPU_LIMIT = 20
MASK = ("x", "y")


def cases(tier):
    return layouts.small_cases(tier)


def masked(raw):
    r = dict(raw)
    r["nodes"] = [(k, {a: v for a, v in d.items() if a not in MASK}) for k, d in raw["nodes"]]
    r["flows"] = [(u, v, {a: w for a, w in d.items() if a != "waypoints"}) for u, v, d in raw["flows"]]
    return r


def run(case, ctx):
    n = layouts.size(case)

    def live(d, k):
        if layouts.rooted(n, layouts.edges(case)[:k]):
            look(d, case, layouts.edges(case)[:k], ctx)
    d = layouts.build(case, ctx.scratch + "/in.bpmn", live if case.get("live") else None)
    look(d, case, layouts.edges(case), ctx)
    ctx.trace()
    ctx.state(repr(case))
    ctx.outcome("%d nodes" % n)


def joins(n, es, preds):
    """In a diagram without loops: the nodes with several incoming flows, none of them from a split."""
    left, gone = list(range(n)), set()
    while left:
        now = [b for b in left if all(a in gone for a in preds[b])]
        if not now:
            return []
        gone.update(now)
        left = [b for b in left if b not in gone]
    outs = [0] * n
    for a, _ in es:
        outs[a] += 1
    return [b for b in range(n) if len(preds[b]) > 1 and all(outs[a] == 1 for a in preds[b])]


def look(d, case, es, ctx):
    before = readonly.raw(d)
    layouter.generate_layout(d)
    after = readonly.raw(d)
    if masked(before) != masked(after):
        same("diagram apart from positions", masked(after), masked(before))
    n = layouts.size(case)
    pos = {}
    for k, a in after["nodes"]:
        x, y = a["x"], a["y"]
        if int(x) != float(x) or int(y) != float(y):
            fail("coordinates of %s are not integers: %r %r" % (k, x, y))
        pos[k] = (int(x), int(y))
    for k, v in d.get_nodes_positions().items():
        same("reported position of %s" % k, (int(v[0]), int(v[1])), pos[k])
    cells = sorted(pos.items(), key=lambda c: c[1])
    for i, (k, (x, y)) in enumerate(cells):
        if (x - 50) % 150 or (y - 50) % 100:
            fail("%s is not on the grid: %r" % (k, (x, y)))
        for l, (x2, y2) in cells[i + 1:]:
            if abs(x - x2) < 100 and abs(y - y2) < 100:
                fail("%s and %s overlap: %r %r" % (k, l, (x, y), (x2, y2)))
    preds = {i: [] for i in range(n)}
    for a, b in es:
        preds[b].append(a)
    first = min(x for x, _ in pos.values())
    for b, ps in preds.items():
        x = pos[layouts.nid(case, b)][0]
        if not ps and x != first:
            fail("n%d has no incoming flow and is not in the first column: %r" % (b, pos))
        if len(ps) == 1 and x != pos[layouts.nid(case, ps[0])][0] + 150:
            fail("n%d is not right of its only predecessor n%d: %r" % (b, ps[0], pos))
    for b in joins(n, es, preds):
        x = pos[layouts.nid(case, b)][0]
        right = max(pos[layouts.nid(case, a)][0] for a in preds[b])
        if x != right + 150:
            fail("join n%d is not right of its rightmost predecessor: %r" % (b, pos))
    layouter.generate_layout(d)
    again = readonly.raw(d)
    if again != after:
        same("second layout", again, after)
    ctx.step(2)
