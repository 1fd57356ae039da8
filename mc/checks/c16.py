# coding=utf-8
"""C16: counting metrics equal the real numbers of elements."""
import itertools

import bpmn_python.bpmn_diagram_metrics as metrics
from mc import counts, facts, history, lib
from mc.core import fail, same

RULE = ("every number 0..12 of every element type, every pair (thorough: triple and quadruple) of types with every combination of "
        "counts 0..3, every set of gateway / event / activity types, placed flat, nested or in two processes, in several orders, "
        "with misleading names, with look-alike ids and with flows; every document of the document families (sub-processes, pools, lanes, look-alike ids and names); and every history of construction calls of the bound (also measured after every call); each counting metric is "
        "compared with the tally kept during construction")
BOUND = {"quick": "pairs of types with counts up to 3, triples once each, histories of 4 calls",
         "thorough": "triples of types with counts up to 2, all sets of types, histories of 5 calls"}
ASSUMPTIONS = ["boundary events, data objects and typed tasks are no events / activities in the sense of these metrics, as in "
               "the library's type lists"]
T = counts.TYPES


def cases(tier):
    yield {"bag": []}
    yield {"ops": []}
    for t in T:
        for n in range(1, 14):
            for place in ("flat", "nested", "processes"):
                for names in range(5):
                    yield {"bag": [[t, n]], "place": place, "names": names}
            for i in counts.LOOKALIKES:
                yield {"bag": [[t, n]], "ids": i}
    for a, b in itertools.permutations(T, 2):
        for n in (1, 2, 3):
            for m in (1, 2, 3):
                yield {"bag": [[a, n], [b, m]], "flows": (n + m) % 3, "order": m % 3}
        for place in ("nested", "processes"):
            yield {"bag": [[a, 2], [b, 1]], "place": place, "flows": 1, "names": 3}
    for k in (3,) if tier == "quick" else (3, 4, 5):
        for ts in itertools.combinations(T, k):
            yield {"bag": [[t, 1 + i] for i, t in enumerate(ts)], "order": 2, "flows": 2}
    for group in (counts.GATEWAYS, counts.EVENTS, counts.GATEWAYS + counts.EVENTS[:2] + counts.ACTIVITIES):
        for r in range(len(group) + 1):
            for ts in itertools.combinations(group, r):
                for c in (1, 2):
                    yield {"bag": [[t, c] for t in ts], "flows": 1}
    for k in range(1, len(T) + 1):
        yield {"bag": [[t, 1 + i % 3] for i, t in enumerate(T[:k])]}
        yield {"bag": [[t, 1 + i % 2] for i, t in enumerate(T[-k:])]}
    if tier == "thorough":
        for ts in itertools.combinations(T, 3):
            for ns in itertools.product((1, 2), repeat=3):
                yield {"bag": [[t, n] for t, n in zip(ts, ns)], "flows": 1}
        for mask in range(1 << len(T)):
            if mask % 3 == 0:
                yield {"bag": [[t, 1] for i, t in enumerate(T) if mask >> i & 1]}
    for ops in history.sequences(4 if tier == "quick" else 5):
        yield {"ops": ops}
        yield {"ops": ops, "live": 1}
    for ops in history.sequences(3 if tier == "quick" else 4):
        for s in history.DECORATIONS:
            yield {"ops": history.decorate(ops, s)}
    for c in facts.cases(tier):
        yield c


def check(d, tally, ctx):
    for m, want in counts.expected_counts(tally).items():
        same(m, getattr(metrics, m)(d), want)
    n = lambda t: tally.get(t, 0)
    same("get_gateway_counts", metrics.get_gateway_counts(d), {t: n(t) for t in counts.GATEWAYS})
    same("get_events_counts", metrics.get_events_counts(d), {t: n(t) for t in counts.EVENTS})
    same("get_activities_counts", metrics.get_activities_counts(d), {t: n(t) for t in counts.ACTIVITIES})
    for t in T:
        same("get_nodes_count %s" % t, metrics.get_nodes_count(d, t), n(t))
        same("get_nodes_count node_type=%s" % t, metrics.get_nodes_count(d, node_type=t), n(t))
    same("get_nodes_count unknown", metrics.get_nodes_count(d, "noSuchType"), 0)
    same("get_nodes_count of all nodes", metrics.get_nodes_count(d), sum(tally.values()))
    same("get_all_gateways", sorted(g[1]["type"] for g in metrics.get_all_gateways(d)),
         sorted(t for t in counts.GATEWAYS for _ in range(n(t))))
    ctx.step(15 + 2 * len(T))


def run(case, ctx):
    if "bag" in case:
        doc, tally, _ = counts.bag_doc(case["bag"], case.get("order", 0), case.get("place", "flat"),
                                       case.get("names", 0), case.get("flows", 0), case.get("ids"))
        d = counts.load(doc, ctx)
    elif "f" in case:
        f = facts.Facts(case)
        tally = f.tally
        d = f.load(ctx.scratch + "/in.bpmn")
    else:
        d = lib.BpmnDiagramGraph()
        tally = {}

        def each(r):
            tally.clear()
            for a in r.m["nodes"].values():
                tally[a["type"]] = tally.get(a["type"], 0) + 1
            if case.get("live"):
                check(d, tally, ctx)
        history.play(d, case["ops"], False, each)
    check(d, tally, ctx)
    ctx.trace()
    ctx.state(repr(sorted(tally.items())))
    ctx.outcome("%d elements" % sum(tally.values()))
