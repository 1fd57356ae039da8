# coding=utf-8
"""C17: ratio and rank metrics follow their definitions."""
import itertools
from fractions import Fraction

import bpmn_python.bpmn_diagram_metrics as metrics
from mc import counts, facts, layouts
from mc.core import fail, same

RULE = ("rank metrics: every multiset of type counts within the bound, on real diagrams with that many elements of that many "
        "types (types rotated); ratios: every directed graph (self loops, unreachable parts included) with up to 3 nodes and "
        "every assignment of task / five gateway kinds, every graph with 4 nodes with two type patterns; compared with exact "
        "values computed from the construction; and every document of the document families (nesting, pools, message flows, lanes, "
        "look-alike ids)")
BOUND = {"quick": "up to 5 types with counts up to 6; graphs up to 4 nodes",
         "thorough": "up to 8 types with counts up to 6 and up to 5 types with counts up to 9; graphs up to 4 nodes, all patterns"}
ASSUMPTIONS = ["the coefficient is not defined without nodes, the average degree not without gateways"]
T = counts.TYPES
NAMES = "txoacb"        # task, exclusive, inclusive, parallel, complex, event based


def cases(tier):
    bounds = [(5, 6)] if tier == "quick" else [(8, 6), (5, 9)]
    for types, top in bounds:
        for k in range(types + 1):
            for i, cs in enumerate(itertools.combinations_with_replacement(range(1, top + 1), k)):
                yield {"counts": cs, "rot": i % len(T)}
    for k in (6, 7, 8, 9, 10, 12, 16):
        for c in (1, 2, 3, 5, 6, 7, 8, 9, 10, 12, 16):
            yield {"counts": [c] * k, "rot": 0}
            yield {"counts": [c] * (k - 1) + [k * k], "rot": 5}
            yield {"counts": list(range(1, k + 1)), "rot": c}
    for n in (1, 2):
        for m in range(1 << (n * n)):
            for t in itertools.product(NAMES, repeat=n):
                yield {"n": n, "e": m, "t": "".join(t)}
    for m in range(1 << 9):
        for t in itertools.product("tx" if tier == "quick" else "txb", repeat=3):
            yield {"n": 3, "e": m, "t": "".join(t)}
        yield {"n": 3, "e": m, "t": "oac"[m % 3] + "cbt"[m % 2] + "tsx"[m % 3]}
    for m in range(1 << 16):
        for k, t in enumerate(["xttt", "txat", "xaox", "sxte"]):
            if tier == "thorough" or k == m % 4:
                yield {"n": 4, "e": m, "t": t}
    for m in range(1 << 9):
        for c in layouts.variants({"n": 3, "e": m, "t": "xta"}):
            yield c
    for c in itertools.chain(layouts.structured_cases(), layouts.type_cases(), layouts.word_cases()):
        yield c
    for c in facts.cases(tier):
        yield c


def run(case, ctx):
    if "counts" in case:
        bag = [[T[(i + case["rot"]) % len(T)], c] for i, c in enumerate(case["counts"])]
        doc, tally, nflows = counts.bag_doc(bag, len(bag) % 3, "flat", 0, 1)
        d = counts.load(doc, ctx)
        n = sum(tally.values())
    elif "f" in case:
        f = facts.Facts(case)
        d = f.load(ctx.scratch + "/in.bpmn")
        n, nflows, tally = len(f.nodes), len(set(f.flows)), f.tally
        gates = [i for i in f.nodes if f.types[i] in counts.GATEWAYS]
        if gates:
            deg = sum((a == g) + (b == g) for g in gates for a, b in set(f.flows))
            close("AverageGatewayDegree_metric", metrics.AverageGatewayDegree_metric(d), Fraction(deg, len(gates)))
    else:
        n, es, ts = layouts.size(case), layouts.edges(case), layouts.types(case)
        tally = {}
        for t in ts:
            tally[layouts.TYPE[t]] = tally.get(layouts.TYPE[t], 0) + 1
        gates = [i for i in range(n) if layouts.TYPE[ts[i]] in counts.GATEWAYS]

        def each(d, k):
            if gates:
                deg = sum((a == g) + (b == g) for g in gates for a, b in es[:k])
                close("AverageGatewayDegree_metric", metrics.AverageGatewayDegree_metric(d), Fraction(deg, len(gates)))
            look(d, n, k, tally, ctx)
        d = layouts.build(case, ctx.scratch + "/in.bpmn", each if case.get("live") else None)
        nflows = len(es)
        each(d, nflows)
    look(d, n, nflows, tally, ctx)
    ctx.trace()
    ctx.state(repr(case))
    ctx.outcome("durfee %d" % counts.durfee(list(tally.values())))


def look(d, n, nflows, tally, ctx):
    if n:
        close("CoefficientOfNetworkComplexity_metric", metrics.CoefficientOfNetworkComplexity_metric(d),
              Fraction(nflows, n))
    same("DurfeeSquare_metric", metrics.DurfeeSquare_metric(d), counts.durfee(list(tally.values())))
    same("PerfectSquare_metric", metrics.PerfectSquare_metric(d), counts.perfect(list(tally.values())))
    ctx.step(4)


def close(what, got, want):
    if abs(got - float(want)) > 1e-9 * max(1.0, float(want)):
        fail("%s: got %r, expected %s" % (what, got, want))
