# coding=utf-8
"""C19: longest path metrics return a real path of maximal length."""
import itertools

import bpmn_python.diagram_layout_metrics as lm
from mc import facts, layouts
from mc.core import fail, same

RULE = ("every directed graph (self loops, loops, unreachable parts, no start, no end included) with up to three nodes with every "
        "assignment of five node types, with four nodes with type patterns (both orders of flows), plus structured larger "
        "graphs, the documents of the document families (nested flows, message flows, pools, unlisted references) and all forests and acyclic graphs of the bound; the reported paths are checked on the graph and their "
        "lengths against the maximum over all simple paths")
BOUND = {"quick": "graphs up to 4 nodes (2 type patterns for 4 nodes), acyclic graphs with 5 nodes",
         "thorough": "graphs up to 4 nodes with 8 type patterns, 5 nodes without self loops, acyclic graphs with 6 nodes"}
ASSUMPTIONS = []
CPU_LIMIT = 60
ACT = ("task", "subProcess")
PAT = ["tttttt", "txtptx", "xtxtxt", "xxttxx", "stpxte", "pxxtpe", "txxxxt", "xxxxxx"]


def cases(tier):
    yield {"n": 0, "e": 0}
    for n in (1, 2, 3):
        for m in range(1 << (n * n)):
            for t in itertools.product("txp" if n == 3 and tier == "quick" else "txpse", repeat=n):
                yield {"n": n, "e": m, "t": "".join(t)}
    for m in range(1 << 9):
        yield {"n": 3, "e": m, "t": "utx"}
        yield {"n": 3, "e": m, "t": "tut"}
        for perm in itertools.permutations(range(3)):
            yield {"n": 3, "e": m, "t": "txp", "perm": perm, "rev": True}
        for c in layouts.variants({"n": 3, "e": m, "t": "txt"}):
            yield c
    for m in range(1 << 16):
        for k, t in enumerate(PAT):
            if tier == "thorough" or k in (m % 4, 4 + m % 4):
                c = {"n": 4, "e": m, "t": t}
                if k % 2:
                    c["rev"] = True
                yield c
    for n in (5,) if tier == "quick" else (5, 6):
        slots = [(i, j) for i in range(n) for j in range(i + 1, n)]
        for m in range(1 << len(slots)):
            yield {"n": n, "l": [e for k, e in enumerate(slots) if m >> k & 1], "t": PAT[m % len(PAT)]}
    for c in layouts.structured_cases():
        if c["g"] in ("dense", "ladder") and c["k"] > 2 or c["g"] == "series" and c["k"] > 3:
            continue
        yield c
    for c in itertools.chain(layouts.type_cases(), layouts.word_cases()):
        yield c
    for n in (200, 1000):
        c = {"n": n, "l": [(i, i + 1) for i in range(n - 1)], "t": "xt" * (n // 2)}
        yield c if n == 200 else dict(c, known="C19-long-path")
    for c in facts.cases(tier):
        yield c
    if tier == "thorough":
        for m in layouts.all_graphs(5, False):
            yield {"n": 5, "e": m, "t": PAT[m % len(PAT)]}


def simple_paths(n, es):
    succ = {i: [b for a, b in es if a == i] for i in range(n)}
    roots = [i for i in range(n) if not any(b == i for _, b in es)]
    out = []
    todo = [[r] for r in roots]
    while todo:
        path = todo.pop()
        out.append(path)
        todo.extend(path + [b] for b in succ[path[-1]] if b not in path)
    return out, succ


def document(case, ctx):
    f = facts.Facts(case)
    if not f.consistent or len(f.flows) > 40:
        return
    num = {i: k for k, i in enumerate(f.nodes)}
    es = [(num[a], num[b]) for a, b in f.flows]
    paths = simple_paths(len(num), es)
    if len(paths[0]) > 300:
        return
    d = f.load(ctx.scratch + "/in.bpmn")
    best, most = judge(d, paths, [f.types[i] for i in f.nodes], num.get, ctx)
    ctx.trace()
    ctx.state(repr(case))
    ctx.outcome("document, longest %d, activities %d" % (best, most))


def run(case, ctx):
    if "f" in case:
        return document(case, ctx)
    es = layouts.edges(case)
    d = layouts.build(case, ctx.scratch + "/in.bpmn", (lambda d, k: look(d, case, es[:k], ctx)) if case.get("live") else None)
    best, most = look(d, case, es, ctx)
    ctx.trace()
    ctx.state(repr(case))
    ctx.outcome("longest %d, activities %d" % (best, most))


def look(d, case, es, ctx):
    ts = [layouts.TYPE[t] for t in layouts.types(case)]
    return judge(d, simple_paths(layouts.size(case), es), ts, lambda i: layouts.number(case, i), ctx)


def judge(d, simple, ts, number, ctx):
    paths, succ = simple
    full = [p for p in paths if not succ[p[-1]]]
    best = max([len(p) for p in full] or [0])
    got, length = lm.compute_longest_path(d)
    ids = [x[0] for x in got]
    same("length of the longest path", length, best)
    same("number of nodes of the longest path", len(ids), best)
    if ids and [number(i) for i in ids] not in full:
        fail("the longest path is no path from a start to an end: %r" % ids)
    acts = [[i for i in p if ts[i] in ACT] for p in paths]
    most = max([len(a) for a in acts] or [0])
    got, length = lm.compute_longest_path_tasks(d)
    ids = [x[0] for x in got]
    same("length of the longest activity path", length, most)
    same("number of activities", len(ids), most)
    if ids and [number(i) for i in ids] not in acts:
        fail("the activities are not on one path: %r" % ids)
    for x in got:
        same("node in the path", x[1], dict(d.get_node_by_id(x[0])[1]))
    ctx.step(2)
    return best, most
