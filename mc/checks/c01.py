# coding=utf-8
"""C01: every history of construction calls up to the bound, all queries compared with the reference model."""
from mc import docs, history, lexicon, lib, model
from mc.checks import c05
from mc.core import fail, forked, same

RULE = ("all sequences of construction calls (processes, nodes in any scope, flows between any ordered pair, restart) up to "
        "the depth, every combination of arguments of every call, by keyword and by position, all digraphs with several "
        "insertion orders, text and id alphabets, restart after import, imported diagrams extended by calls, ids given that equal those later calls would generate, sizes; after each history (and, in the live histories, after each call) every query is compared "
        "with a reference model; histories are distinct by their operations")
BOUND = {"quick": "5 operations after new+process, digraphs <= 3 nodes, 4 without loops", "thorough": "6 operations, digraphs <= 4 nodes"}
ASSUMPTIONS = ["explicit node ids are distinct, parents exist, at most one flow per ordered pair of nodes",
               "fresh ids are read from the return values and only checked for uniqueness"]
TYPES = list(model.NODE_TYPES) + ["participant", "sequenceFlow", "process", "nonsense", "Task", "tas", "Gateway", "gateway"]


def cases(tier):
    yield {"ops": [["new"], ["proc"], ["task", 0], ["task", 0], ["flow", 0, 0, 1], ["flow", 0, 0, 1]],
           "known": "C01-parallel-flows", "dup": 1}
    for i, ops in enumerate(history.arguments()):
        yield {"ops": ops, "pos": 0}
        yield {"ops": ops, "pos": 1}
    for ops in history.texts(docs.TEXTS + lexicon.words(), docs.IDS + lexicon.idents()):
        yield {"ops": ops}
    for n in (1, 2, 3):
        for ops in history.graphs(n, True, 3):
            yield {"ops": ops}
    for ops in history.graphs(4, tier == "thorough", 1):
        yield {"ops": ops}
    for src in ("rich", "csv", "new"):
        for ops in history.sequences(2):
            yield {"ops": ops, "after": src}
    for c in history.extension_cases(tier):
        yield c
    for c in guess_cases():
        yield c
    for ops in history.sequences(6 if tier == "thorough" else 5):
        yield {"ops": ops}
        yield {"ops": ops, "live": 1}
    for ops in history.sequences(5 if tier == "thorough" else 4):
        for s in history.DECORATIONS:
            yield {"ops": history.decorate(ops, s), "live": 1}
    for n in (1, 2, 3):
        for ops in history.graphs(n, True, 1):
            yield {"ops": ops, "live": 1}
    for c in history.size_cases((5, 12)):
        yield dict(c, live=1)
    for c in history.size_cases((5, 9, 10, 11, 25, 100, 12000)):
        yield c


EVERY = [["new"], ["proc"], ["task", 0], ["task", 0], ["start", 0, {"start_event_definition": "message"}], ["sub", 0], ["xor", 0],
         ["end", 0, {"end_event_definition": "terminate"}], ["flow", 0, 0, 1], ["flow", 0, 1, 2], ["proc"], ["gw:complexGateway", 1],
         ["fn:userTask", 2], ["or", 2], ["task", 0], ["flow", 0, 2, 3]]
SITES = ("task", "inner", "flow", "process", "def", "cond", "lane", "laneset", "pool", "message", "collaboration")


def guess_cases():
    """An explicit id that equals the id which a later call would generate: run once to learn the ids, once with them taken."""
    for j, op in enumerate(EVERY):
        if op[0] not in ("new", "proc", "flow"):
            for k in range(j + 1, len(EVERY)):
                yield {"guess": j, "by": k}
    for site in SITES:
        for k in range(len(EXTEND)):
            yield {"guess": site, "by": k}


EXTEND = [["task", 0], ["start", 0, {"start_event_definition": "timer"}], ["sub", 0], ["end", 0, {"end_event_definition": "error"}],
          ["flow", 0, 1, 2], ["proc"], ["xor", 0], ["flow", 0, 2, 0], ["task", 0]]


def tiny(ids):
    m = model

    def i(k):
        return ids.get(k, "the_" + k)
    d = m.new_doc()
    d["processes"] = [m.connect(m.process(i("process"), [
        m.node("task", i("task"), "T"), m.node("endEvent", "e", "E", defs=[("error", i("def"))]),
        m.node("subProcess", "s", "S", nodes=[m.node("task", i("inner"), "I")])],
        [m.flow(i("flow"), i("task"), "e", "", (i("cond"), "x"))], m.lane_set(i("laneset"), [m.lane(i("lane"), "L", ["e"])])))]
    d["plane"]["bpmnElement"] = i("process")
    d["collaboration"] = m.collaboration(i("collaboration"), [m.participant(i("pool"), "P", i("process"))], [
        m.flow(i("message"), i("pool"), i("task"), "m")])
    return d


def guess(case, ctx):
    """The ids generated in the first run are the ids given in the second; both start from the same state of the library."""
    j, k = case["guess"], case["by"]
    path = ctx.scratch + "/g.bpmn"

    def once(taken=None):
        d = lib.BpmnDiagramGraph()
        if isinstance(j, str):
            d = lib.load(model.serialize(tiny({} if taken is None else {j: taken})), path)
            r, ops = history.Run(d).adopt(), EXTEND
        else:
            r, ops = history.Run(d), EVERY
        out = []
        for n, op in enumerate(ops):
            if n == j and taken is not None:
                op = op[:2] + [dict(op[2] if len(op) > 2 else {}, node_id=taken)]
            before = set(r.ids)
            r.do(op)
            out.append(sorted(r.ids - before))
            if taken is not None:
                r.compare()
        return out
    n = 0
    for i in forked(once)[k]:
        forked(lambda: once(i))
        n += 1
    ctx.step(n)
    ctx.state(repr(case))
    ctx.trace()
    ctx.outcome("explicit id equal to a generated one")


CSV = "Order,Activity,Condition,Who,Subprocess,Terminated\n0,go,,,,\n1,do,,,,\n2,end,,,,yes\n"


def run(case, ctx):
    if "guess" in case:
        return guess(case, ctx)
    d = lib.BpmnDiagramGraph()
    if case.get("after") == "rich":
        d = lib.load(model.serialize(docs.rich()), ctx.scratch + "/r.bpmn")
    elif case.get("after") == "csv":
        d = lib.load_csv(CSV, ctx.scratch + "/r.csv")
    elif case.get("after") == "new":
        history.play(d, [["new", "old"], ["proc"], ["task", 0], ["task", 0], ["flow", 0, 0, 1]])
    if "then" in case:
        d = c05.make({k: v for k, v in case.items() if k != "then"}, ctx)
        case = dict(case, ops=case["then"], live=1)
    ops = history.decode(case)
    r = history.play(d, ops, bool(case.get("pos")), (lambda r: queries(r, ctx)) if case.get("live") else None, "then" in case)
    ctx.step(len(ops))
    ctx.state(repr(case))
    ctx.trace()
    ctx.outcome("%d nodes %d flows" % (min(len(r.nodes), 9), min(len(r.flows), 9)))
    queries(r, ctx)


def rec_node(item):
    """One (id, attributes) item in the form of the model."""
    class One(object):
        diagram_attributes = plane_attributes = process_elements = sequence_flows = collaboration = {}

        def get_nodes(self):
            return [item]

        def get_flows(self):
            return []
    return model.snapshot(One())["nodes"]


def rec_flow(item):
    class One(object):
        diagram_attributes = plane_attributes = process_elements = sequence_flows = collaboration = {}

        def get_nodes(self):
            return []

        def get_flows(self):
            return [item]
    return model.snapshot(One())["flows"]


def listed(what, items, want, rec):
    out = {}
    for it in items:
        for k, v in rec(it).items():
            if k in out:
                fail("%s lists %r twice" % (what, k))
            out[k] = v
    same(what, out, want)


def queries(r, ctx):
    d, m = r.d, r.m
    r.compare()
    for nid, ref in r.refs.items():
        if nid in m["nodes"]:
            same("reference returned for node %s" % nid, rec_node((nid, ref)), {nid: m["nodes"][nid]})
        else:
            f = m["flows"][nid]
            same("reference returned for flow %s" % nid, rec_flow((f["source"], f["target"], ref)), {nid: f})
    n = 0
    for t in TYPES:
        want = {k: v for k, v in m["nodes"].items() if v["type"] == t}
        listed("get_nodes(%r)" % t, d.get_nodes(t), want, rec_node)
        same("get_nodes_id_list_by_type(%r)" % t, sorted(d.get_nodes_id_list_by_type(t)), sorted(want))
        n += 2
    listed("get_nodes('')", d.get_nodes(""), m["nodes"], rec_node)
    some = list(m["nodes"]) if len(m["nodes"]) < 200 else list(m["nodes"])[::997]
    for p in r.scopes[:100] + ["unknown", ""] + some[:5]:
        listed("nodes of process", d.get_nodes_list_by_process_id(p),
               {k: v for k, v in m["nodes"].items() if v["process"] == p}, rec_node)
        listed("flows of process", d.get_flows_list_by_process_id(p),
               {k: v for k, v in m["flows"].items() if v["process"] == p}, rec_flow)
        n += 2
    for k in some:
        it = d.get_node_by_id(k)
        if it is None:
            fail("get_node_by_id does not find %r" % k)
        same("get_node_by_id", rec_node(it), {k: m["nodes"][k]})
        n += 1
    for k in m["flows"]:
        it = d.get_flow_by_id(k)
        if it is None:
            fail("get_flow_by_id does not find %r" % k)
        same("get_flow_by_id", rec_flow(it), {k: m["flows"][k]})
        n += 1
    for k in ("unknown", "", "idx"):
        same("get_node_by_id of an unknown id", d.get_node_by_id(k), None)
        same("get_flow_by_id of an unknown id", d.get_flow_by_id(k), None)
    for k in r.nodes[:3]:
        same("get_flow_by_id of a node's id", d.get_flow_by_id(k), None)
    for k in r.flows[:3]:
        same("get_node_by_id of a flow's id", d.get_node_by_id(k), None)
    every = set(m["nodes"]) | set(m["flows"])
    for k in r.nodes[:2] + r.nodes[-1:] + r.flows[:2] + r.flows[-1:]:
        for near in (k.upper(), k.lower(), k[:-1], k[1:], k + "0", " " + k, k + " ", m["nodes"].get(k, {}).get("name")):
            if near and near not in every:
                same("get_node_by_id(%r)" % near, d.get_node_by_id(near), None)
                same("get_flow_by_id(%r)" % near, d.get_flow_by_id(near), None)
    for p in r.scopes[:2] + r.scopes[-1:]:
        for near in (p.upper(), p[:-1], p[1:], p + "0", " " + p):
            if near not in r.scopes:
                same("nodes of process %r" % near, list(d.get_nodes_list_by_process_id(near)), [])
                same("flows of process %r" % near, list(d.get_flows_list_by_process_id(near)), [])
    if all("x" in v for v in m["nodes"].values()):
        same("get_nodes_positions", dict(d.get_nodes_positions()), {k: (v["x"], v["y"]) for k, v in m["nodes"].items()})
    ctx.step(n + 10)
