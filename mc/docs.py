# coding=utf-8
"""Bounded families of BPMN documents.  A case is a small JSON descriptor, build(case) makes the document."""
import itertools

from mc import lexicon
from mc.model import (ATTRS, DEFS, EVENTS, GATEWAYS, NODE_TYPES, PROCESS_ATTRS, TASKS, collaboration, connect, flow,
                      lane, lane_set, new_doc, node, participant, process, walk_flows, walk_lanes, walk_nodes)

BOOL = ("true", "false")
DIGITS = ("1", "0")
VALUES = {"default": ("f1",), "triggeredByEvent": BOOL, "isCollection": BOOL,
          "gatewayDirection": ("Unspecified", "Converging", "Diverging", "Mixed"), "instantiate": BOOL,
          "eventGatewayType": ("Exclusive", "Parallel"), "parallelMultiple": BOOL, "isInterrupting": BOOL,
          "cancelActivity": BOOL, "attachedToRef": ("t0",)}
PVALUES = {"name": ("", "P name"), "isClosed": BOOL, "isExecutable": BOOL, "processType": ("None", "Public", "Private")}
TEXTS = ["", " ", "a", "A task", " lead", "trail ", "  two  inner  ", "line\nbreak", "tab\tin", "\n", "<b>", "a&b", "&amp;",
         "a<b && c>d", '"quoted"', "it's", "]]>", "--", "a:b", "bpmn:task", "%s %d", "{0}", "None", "none", "NA",
         "nan", "null", "0", "1", "-1", "1.0", "true", "false", "else", "goto 1", "task", "incoming", u"za\u017c\xf3\u0142\u0107",
         u"\u65e5\u672c\u8a9e", u"\U0001F600", u"\xa0nbsp\xa0", u"\u2028", "x" * 300, "w " * 2000 + "w", "\\", "\\n", "a;b,c", "=1+1", "_gui"]
IDS = ["A", "_1", "id-1", "a.b", "sid-A1B2", u"za\u017c", "x" * 200, "task", "none", "None", "A1", "a1", "id"]


def opt(values):
    return [None] + list(values)


def product_of(spec):
    """All choices of present/absent attributes: spec is a list of (attribute, values)."""
    for combo in itertools.product(*[opt(v) for _, v in spec]):
        yield {a: v for (a, _), v in zip(spec, combo) if v is not None}


def def_lists(typ, maxlen):
    kinds = DEFS.get(typ, ())
    for n in range(maxlen + 1):
        for seq in itertools.product(kinds, repeat=n):
            yield [list(x) for x in zip(seq, ["d%d" % i for i in range(n)])]


def wrap(doc, depth, nodes, flows):
    """Puts nodes and flows into a process, depth sub-processes down."""
    scope = connect({"nodes": nodes, "flows": flows})
    for i in range(depth):
        scope = {"nodes": [node("subProcess", "s%d" % i, "S%d" % i, nodes=scope["nodes"], flows=scope["flows"])],
                 "flows": []}
    doc["processes"].append(process("p1", scope["nodes"], scope["flows"]))
    return doc


# ---------------------------------------------------------------- families
def fam_node(tier):
    for depth in (0, 1, 2):
        for t in NODE_TYPES:
            spec = [("name", ("", "N"))] + [(a, VALUES[a]) for a in sorted(ATTRS[t])]
            for at in product_of(spec):
                yield {"f": "node", "t": t, "at": at, "depth": depth}
    for t in EVENTS:
        for defs in def_lists(t, 4 if tier == "thorough" else 3):
            yield {"f": "node", "t": t, "at": {"name": "E"}, "defs": defs, "depth": len(defs) % 2}
            if defs:
                yield {"f": "node", "t": t, "at": {}, "defs": [[k, None] for k, _ in defs], "depth": 0}
    for t in NODE_TYPES:                       # no drawing
        yield {"f": "node", "t": t, "at": {"name": "N"}, "depth": 0, "noshape": 1}
        yield {"f": "node", "t": t, "at": {"name": "N"}, "depth": 1, "noshape": 1}
    for t in NODE_TYPES:                       # the other notation of boolean values
        on = [a for a in sorted(ATTRS[t]) if VALUES[a] == BOOL]
        for vs in itertools.product((None,) + DIGITS + BOOL, repeat=len(on)):
            for depth in (0, 1):
                if set(vs) & set(DIGITS):
                    yield {"f": "node", "t": t, "at": {a: v for a, v in zip(on, vs) if v}, "depth": depth}
    for e in (None,) + BOOL + DIGITS:
        for s in (None,) + BOOL + DIGITS:
            yield {"f": "node", "t": "subProcess", "at": {"name": "N"}, "depth": 1, "expanded": [e, s]}
    for t in NODE_TYPES:                       # references that nothing else in the file confirms
        for depth in (0, 1):
            for a in sorted(ATTRS[t]):
                for v in VALUES[a]:
                    for l in LISTED[1:4]:
                        yield {"f": "node", "t": t, "at": {"name": "N", a: v}, "depth": depth, "l": l}


def build_node(c):
    x = node(c["t"], "x", defs=[tuple(d) for d in c.get("defs", ())])
    x["attrs"] = dict(c["at"])
    t0 = node("task", "t0", "T0", shape={"x": "1", "y": "2", "width": "3", "height": "4"})
    if c.get("noshape"):
        x["shape"] = None
    doc = wrap(new_doc(), c["depth"], [t0, x], [flow("f1", "x", "t0"), flow("f2", "t0", "x", "nm")])
    if "expanded" in c:
        for v, n in zip(c["expanded"], (x, doc["processes"][0]["nodes"][0])):
            if v is not None:
                n["shape"]["isExpanded"] = v
    if "l" in c:
        relist(doc, c["l"])
    return doc


def build_sublane(c):
    """A sub-process (at depth 1 or 2, or both) with a lane set of its own; the process has 0-2 lanes."""
    doc = new_doc()
    for k in range(c["procs"]):
        inner = node("subProcess", "in%d" % k, "In", nodes=[node("task", "u%d" % k, "U")])
        outer = node("subProcess", "out%d" % k, "Out", nodes=[inner, node("task", "v%d" % k, "V")])
        sub = [lane_set("sls%d" % k, [lane("sl%d" % k, "Sub lane", ["v%d" % k], lane_set("scl%d" % k, [
            lane("ssl%d" % k, "Deep", ["v%d" % k])])), lane("sm%d" % k, "Other", [])])]
        if c["at"] != 1:
            outer["ignored"] = sub
        if c["at"] != 0:
            inner["ignored"] = [lane_set("tls%d" % k, [lane("tl%d" % k, "T", ["u%d" % k])])]
        own = None
        if c["own"]:
            own = lane_set("ls%d" % k, [lane("l%d_%d" % (k, i), "L", ["w%d" % k]) for i in range(c["own"])])
        if c["procs"] == 2 and c["own"] == 2 and k == 0:
            own = None
        doc["processes"].append(process("p%d" % (k + 1), [outer, node("task", "w%d" % k, "W")], lanes=own))
    return doc


WPS = [None, [], [("1", "2")], [("1", "2"), ("3", "4")], [("1", "2"), ("1", "2")],
       [("5", "5"), ("3.5", "-4"), ("0", "0"), ("7", "1e2")]]


def fam_flow(tier):
    for depth in (0, 1):
        for name in (None, "", "yes"):
            for cond in (None, [None, ""], ["c1", ""], [None, "a > 1"], ["c1", "a > 1"], ["c1", " padded "]):
                for w in range(len(WPS)):
                    for listed in (0, 1, 2, 3):
                        yield {"f": "flow", "name": name, "cond": cond, "w": w, "listed": listed, "depth": depth}


def build_flow(c):
    a, b = node("task", "a", "A"), node("endEvent", "b", "B")
    f = flow("f1", "a", "b", c["name"], c["cond"] and tuple(c["cond"]), WPS[c["w"]])
    doc = wrap(new_doc(), c["depth"], [a, b], [f])
    if not c["listed"] & 1:
        a["outgoing"] = []
    if not c["listed"] & 2:
        b["incoming"] = []
    return doc


def fam_graph(tier):
    """All directed graphs (self loops included) on up to 3 nodes, with every way of listing references."""
    for n in (0, 1, 2, 3):
        pairs = [(i, j) for i in range(n) for j in range(n)]
        for bits in range(1 << len(pairs)):
            for mode in (0, 1, 2, 3):
                yield {"f": "graph", "n": n, "bits": bits, "mode": mode}
    pairs4 = [(i, j) for i in range(4) for j in range(4) if i != j]
    for bits in range(1 << len(pairs4)):
        for mode in ((0, 1, 2, 3) if tier == "thorough" else (bits % 4,)):
            yield {"f": "graph", "n": 4, "bits": bits, "mode": mode, "noloops": 1}


KINDS = ("task", "exclusiveGateway", "subProcess", "parallelGateway")


def build_graph(c):
    n = c["n"]
    pairs = [(i, j) for i in range(n) for j in range(n) if not c.get("noloops") or i != j]
    nodes = [node(KINDS[i], "n%d" % i, "N%d" % i) for i in range(n)]
    flows = [flow("f%d%d" % p, "n%d" % p[0], "n%d" % p[1], "F%d%d" % p, waypoints=[(str(p[0]), "0"), (str(p[1]), "1")])
             for k, p in enumerate(pairs) if c["bits"] >> k & 1]
    scope = {"nodes": nodes, "flows": flows}
    if c["mode"] & 1:
        flows.reverse()
    if c["mode"] != 3:
        connect(scope)
    if c["mode"] == 2:
        for x in nodes:
            x["incoming"].reverse()
            x["outgoing"].reverse()
    doc = new_doc()
    doc["processes"].append(process("p1", nodes, flows))
    return doc


def forests(n):
    """All ordered forests with n nodes, as nested tuples."""
    if n == 0:
        yield ()
        return
    for k in range(n):
        for first in forests(k):
            for rest in forests(n - 1 - k):
                yield (first,) + rest


def fam_nest(tier):
    for n in range(0, 8 if tier == "thorough" else 6):
        for fo in forests(n):
            for procs in (1, 2):
                yield {"f": "nest", "forest": fo, "procs": procs}


def build_nest(c):
    count = [0]

    def scope(fo):
        i = count[0]
        nodes = [node("task", "a%d" % i, "A"), node("endEvent", "b%d" % i, "B")]
        for x in fo:
            count[0] += 1
            j = count[0]
            inner = scope(x)
            nodes.insert(1, node("subProcess", "s%d" % j, "S", nodes=inner["nodes"], flows=inner["flows"]))
        chain = [x["id"] for x in nodes]
        flows = [flow("f%s%s" % (u, v), u, v) for u, v in zip(chain, chain[1:])]
        s = {"nodes": nodes, "flows": flows}
        return connect(s)
    doc = new_doc()
    for k in range(c["procs"]):
        sc = scope(c["forest"])
        count[0] += 1
        doc["processes"].append(process("p%d" % (k + 1), sc["nodes"], sc["flows"]))
    return doc


def fam_process(tier):
    for at in product_of(sorted(PVALUES.items())):
        for pos in ((0, 1, 2) if tier == "thorough" else (len(at) % 2,)):
            yield {"f": "process", "at": at, "pos": pos}
    for vs in itertools.product((None,) + DIGITS + BOOL, repeat=2):
        for pos in (0, 1, 2):
            if set(vs) & set(DIGITS):
                yield {"f": "process", "at": {a: v for a, v in zip(("isClosed", "isExecutable"), vs) if v}, "pos": pos}
    for n in (None, "", "Dname"):
        for b in ("p0", "p1", "col"):
            yield {"f": "process", "at": {}, "pos": 0, "dname": n, "plane": b}


def build_process(c):
    doc = new_doc()
    for k in range(3):
        nodes = [node("task", "t%d" % k, "T")]
        doc["processes"].append(process("p%d" % k, nodes))
    doc["processes"][c["pos"]]["attrs"] = dict(c["at"])
    if "dname" in c:
        doc["diagram"] = {"id": "dg"}
        if c["dname"] is not None:
            doc["diagram"]["name"] = c["dname"]
        doc["plane"]["bpmnElement"] = c["plane"]
    return doc


HOR = [None, {}, {"isHorizontal": "true"}, {"isHorizontal": "false"}, {"isHorizontal": "1"}, {"isHorizontal": "0"}]
BOX = {"x": "5", "y": "6", "width": "600", "height": "200"}


def fam_pool(tier):
    for name in (None, "", "Pool"):
        for ref in (None, "", "p1"):
            for h in range(len(HOR)):
                yield {"f": "pool", "name": name, "ref": ref, "h": h}
    for n in (2, 3):                           # pools over the same process
        for refs in itertools.product((None, "p1", "p2"), repeat=n):
            for k in range(3):
                yield {"f": "pools", "refs": refs, "msgs": k}
    ends = ("a", "inner", "b", "poolA", "poolB", "black1", "black2")
    for s in ends:
        for t in ends:
            if s != t and (s, t) not in (("a", "inner"),):
                for name in (None, "", "msg"):
                    for w in ((0, 1, 3, 5) if tier == "thorough" else (0, 3)):
                        yield {"f": "msg", "ends": [[s, t]], "name": name, "w": w}
    prs = [(s, t) for s in ends for t in ends if s != t]
    for x, y in itertools.combinations(prs, 2):
        yield {"f": "msg", "ends": [list(x), list(y)], "name": "m", "w": 3, "order": (len(x[0]) + len(y[0])) % 2}


def build_pool(c):
    doc = new_doc()
    doc["processes"] = [process("p1", [node("task", "t", "T")])]
    h = HOR[c["h"]]
    doc["collaboration"] = collaboration("col", [participant("pool", c["name"], c["ref"],
                                                             None if h is None else dict(BOX, **h))])
    return doc


def build_pools(c):
    doc = new_doc()
    doc["processes"] = [process("p1", [node("task", "a", "A")]), process("p2", [node("task", "b", "B")])]
    ps = [participant("pool%d" % i, "P%d" % i, r) for i, r in enumerate(c["refs"])]
    ms = [("pool0", "pool1"), ("a", "b"), ("pool1", "a"), ("b", "pool0")][:2 * c["msgs"]]
    doc["collaboration"] = collaboration("col", ps, [flow("m%d" % i, s, t, "M") for i, (s, t) in enumerate(ms)])
    return doc


def build_msg(c):
    doc = new_doc()
    inner = node("task", "inner", "In")
    doc["processes"] = [
        process("p1", [node("task", "a", "A"), node("subProcess", "sub", "S", nodes=[inner])]),
        process("p2", [node("task", "b", "B")])]
    fl = [flow("m%d" % i, s, t, c["name"], waypoints=WPS[c["w"]]) for i, (s, t) in enumerate(c["ends"])]
    ps = [participant("poolA", "PA", "p1"), participant("poolB", "PB", "p2"), participant("black1", "B1"),
          participant("black2", None, "")]
    if c.get("order"):
        ps.reverse()
    doc["collaboration"] = collaboration("col", ps, fl)
    doc["plane"]["bpmnElement"] = "col"
    return doc


def fam_lane(tier):
    for n in range(0, 8 if tier == "thorough" else 6):
        for k, fo in enumerate(forests(n)):
            for procs in (1, 2, 3):
                yield {"f": "lane", "forest": fo, "procs": procs, "refs": k % 3}
    for name in (None, "", "Lane"):
        for h in range(len(HOR)):
            for lsid in (None, "ls"):
                for child in (0, 1, 2):
                    for refs in (0, 1, 2):
                        yield {"f": "lane1", "name": name, "h": h, "lsid": lsid, "child": child, "refs": refs}
    for at in (0, 1, 2):                       # lanes inside sub-processes are not part of the process
        for own in (0, 1, 2):
            for procs in (1, 2):
                yield {"f": "sublane", "at": at, "own": own, "procs": procs}


def build_lane(c):
    doc = new_doc()
    ps = []
    for k in range(c["procs"]):
        cnt = [0]
        nodes = [node("task", "t%d_%d" % (k, i), "T") for i in range(4)]

        def ls(fo, lid):
            out = lane_set(lid)
            for x in fo:
                cnt[0] += 1
                i = cnt[0]
                refs = [nodes[j % 4]["id"] for j in range(i, i + c["refs"])]
                out["lanes"].append(lane("l%d_%d" % (k, i), "L%d" % i, refs, shape={
                    "x": str(i), "y": str(2 * i), "width": "100", "height": str(10 * i),
                    "isHorizontal": "true" if i % 2 else "false"},
                    child=ls(x, "cls%d_%d" % (k, i)) if x else None))
            return out
        lanes = ls(c["forest"], "ls%d" % k) if c["forest"] or k == 0 else None
        doc["processes"].append(process("p%d" % (k + 1), nodes, lanes=lanes))
        ps.append(participant("pool%d" % k, "P", "p%d" % (k + 1)))
    doc["collaboration"] = collaboration("col", ps)
    return doc


def build_lane1(c):
    nodes = [node("task", "a", "A"), node("task", "b", "B")]
    h = HOR[c["h"]]
    child = None
    if c["child"]:
        child = lane_set("cls" if c["child"] == 1 else None, [lane("inner", "I", ["b"])] if c["child"] == 1 else [])
    refs = [["a", "b"], ["b", "a"], []][c["refs"]]
    ls = lane_set(c["lsid"], [lane("l", c["name"], refs, child, None if h is None else dict(BOX, **h)),
                              lane("l2", "second", ["a"])])
    doc = new_doc()
    doc["processes"].append(process("p1", nodes, lanes=ls))
    return doc


# ---------------------------------------------------------------- a document with everything, and its variations
def rich():
    """One document with every kind of element."""
    d = new_doc()
    sub = node("subProcess", "sub", "Sub", shape=dict(BOX, isExpanded="true"), triggeredByEvent="false",
               nodes=[node("startEvent", "ss", "SS"), node("userTask", "su", "SU"),
                      node("subProcess", "sub2", "Sub2", nodes=[node("manualTask", "sm", "SM"),
                                                                node("endEvent", "s2e", "E2")],
                           flows=[flow("g1", "sm", "s2e", "deep")])],
               flows=[flow("s1", "ss", "su"), flow("s2", "su", "sub2", "", ("sc", "x < 3"))])
    for x in (sub, sub["nodes"][2]):
        connect(x)
    nodes = [
        node("startEvent", "start", "Start", defs=[("message", "md")], parallelMultiple="false",
             isInterrupting="true"),
        node("task", "t1", "Task one", shape={"x": "1", "y": "2", "width": "3", "height": "4"}),
        node("exclusiveGateway", "x1", "Split", gatewayDirection="Diverging", default="f4"),
        node("serviceTask", "svc", "Service"),
        sub,
        node("boundaryEvent", "be", "Catch", defs=[("timer", "td"), ("error", None)], attachedToRef="t1",
             cancelActivity="false"),
        node("inclusiveGateway", "i1", "Join", gatewayDirection="Converging"),
        node("eventBasedGateway", "ebg", "Wait", instantiate="true", eventGatewayType="Parallel"),
        node("intermediateCatchEvent", "ice", "C", defs=[("signal", "sd")]),
        node("intermediateThrowEvent", "ite", "T", defs=[("escalation", "ed"), ("message", "me")]),
        node("complexGateway", "cg", "Cx"), node("parallelGateway", "pg", "Par", gatewayDirection="Mixed"),
        node("dataObject", "do", "Data", isCollection="true", shape=None),
        node("endEvent", "end", "End", defs=[("terminate", "te")])]
    fl = [flow("f1", "start", "t1"), flow("f2", "t1", "x1", "go", waypoints=[("1", "1"), ("2", "2"), ("3", "3")]),
          flow("f3", "x1", "svc", "", ("c3", "a > 5")), flow("f4", "x1", "sub", "otherwise"),
          flow("f5", "svc", "i1"), flow("f6", "sub", "i1", "", None, None), flow("f7", "i1", "ebg"),
          flow("f8", "ebg", "ice"), flow("f9", "ice", "ite"), flow("f10", "ite", "cg"), flow("f11", "cg", "pg"),
          flow("f12", "pg", "end"), flow("f13", "pg", "cg", "back"), flow("f14", "be", "end")]
    p1 = connect(process("p1", nodes, fl, name="First", isExecutable="true", processType="Private"))
    p1["laneSet"] = lane_set("ls", [
        lane("l1", "Upper", ["start", "t1", "x1"]),
        lane("l2", "Lower", [], lane_set("cls", [lane("l3", "In1", ["svc"]), lane("l4", "In2", ["sub", "end"])]))])
    p2 = connect(process("p2", [node("startEvent", "q1", "Q1"), node("task", "q2", "Q2"), node("endEvent", "q3", "Q3")],
                         [flow("h1", "q1", "q2", "x"), flow("h2", "q2", "q3", "y")], name="Second"))
    d["processes"] = [p1, p2]
    d["collaboration"] = collaboration(
        "col", [participant("poolA", "Pool A", "p1"), participant("poolB", "Pool B", "p2"),
                participant("poolC", "Black box")],
        [flow("m1", "svc", "q1", "ask"), flow("m2", "q3", "poolC", "tell"), flow("m3", "poolC", "su", "")])
    d["plane"]["bpmnElement"] = "col"
    return d


def _n(d, nid):
    for p in d["processes"]:
        for n, s in walk_nodes(p):
            if n["id"] == nid:
                return n, s


def _f(d, fid):
    for p in d["processes"]:
        for f, s in walk_flows(p):
            if f["id"] == fid:
                return f


def _drop_flow(d, fid):
    for p in d["processes"]:
        for n, s in walk_nodes(p):
            for k in ("incoming", "outgoing"):
                n[k] = [x for x in n[k] if x != fid]
        for f, s in list(walk_flows(p)):
            if f["id"] == fid:
                s["flows"].remove(f)


def _unlist(d):
    for p in d["processes"]:
        for n, s in walk_nodes(p):
            n["incoming"], n["outgoing"] = [], []


def _opposite(d):
    p = d["processes"][0]
    p["flows"].append(flow("fb", "t1", "start", "again", ("cb", "retry")))
    _n(d, "t1")[0]["outgoing"].append("fb")
    _n(d, "start")[0]["incoming"].append("fb")


def _loop(d):
    d["processes"][0]["flows"].append(flow("fl", "t1", "t1", "self"))


DEVIATIONS = [
    ("opposite flow", _opposite),
    ("self loop", _loop),
    ("nothing listed", _unlist),
    ("no lanes", lambda d: d["processes"][0].update(laneSet=None)),
    ("lanes in second process", lambda d: d["processes"][1].update(laneSet=lane_set("lsB", [
        lane("k1", "K", ["q2", "q1"])]))),
    ("three lane levels", lambda d: [l.update(child=lane_set("cl2", [lane("l5", "deep", ["svc"])]))
                                     for p in d["processes"] for l in list(walk_lanes(p["laneSet"]))
                                     if l["id"] == "l3"]),
    ("no collaboration", lambda d: (d.update(collaboration=None), d["plane"].update(bpmnElement="p1"))),
    ("no message flows", lambda d: d["collaboration"] and d["collaboration"].update(messageFlows=[])),
    ("message to white-box pool", lambda d: d["collaboration"] and d["collaboration"]["messageFlows"].append(
        flow("m4", "poolB", "t1", "to pool"))),
    ("processes swapped", lambda d: d["processes"].reverse()),
    ("second process empty", lambda d: [p.update(nodes=[], flows=[]) for p in d["processes"] if p["id"] == "p2"]
     and d["collaboration"] and d["collaboration"].update(messageFlows=[])),
    ("third process", lambda d: d["processes"].append(process("p3", [node("userTask", "z1", "Z")]))),
    ("nodes reversed", lambda d: [p["nodes"].reverse() for p in d["processes"]]),
    ("flows reversed", lambda d: [p["flows"].reverse() for p in d["processes"]]),
    ("references reversed", lambda d: [(n["incoming"].reverse(), n["outgoing"].reverse()) for p in d["processes"]
                                       for n, _ in walk_nodes(p)]),
    ("no shapes of nodes", lambda d: [n.update(shape=None) for p in d["processes"] for n, _ in walk_nodes(p)]),
    ("no edges", lambda d: [f.update(waypoints=None) for p in d["processes"] for f, _ in walk_flows(p)]),
    ("no pool shapes", lambda d: d["collaboration"] and [x.update(shape=None) for x in
                                                         d["collaboration"]["participants"]]),
    ("no lane shapes", lambda d: [l.update(shape=None) for p in d["processes"] for l in walk_lanes(p["laneSet"])]),
    ("names absent", lambda d: [n["attrs"].pop("name", None) for p in d["processes"] for n, _ in walk_nodes(p)]),
    ("flow names absent", lambda d: [f["attrs"].pop("name", None) for p in d["processes"] for f, _ in walk_flows(p)]),
    ("attributes absent", lambda d: [n.update(attrs={k: v for k, v in n["attrs"].items() if k == "name"})
                                     for p in d["processes"] for n, _ in walk_nodes(p)]),
    ("process attributes absent", lambda d: [p.update(attrs={}) for p in d["processes"]]),
    ("no event definitions", lambda d: [n.update(defs=[]) for p in d["processes"] for n, _ in walk_nodes(p)]),
    ("conditions everywhere", lambda d: [f.update(cond=("k" + f["id"], f["id"] + " > 0")) for p in d["processes"]
                                         for f, _ in walk_flows(p)]),
    ("no conditions", lambda d: [f.update(cond=None) for p in d["processes"] for f, _ in walk_flows(p)]),
    ("anonymous conditions", lambda d: [f.update(cond=(None, f["cond"][1])) for p in d["processes"]
                                        for f, _ in walk_flows(p) if f["cond"]]),
    ("defaults everywhere", lambda d: [n["attrs"].update(default=n["outgoing"][-1]) for p in d["processes"]
                                       for n, _ in walk_nodes(p) if "default" in ATTRS[n["type"]] and n["outgoing"]]),
    ("odd coordinates", lambda d: [n["shape"].update(x="-10.5", y="0", width="0.25", height="1e3") for p in
                                   d["processes"] for n, _ in walk_nodes(p) if n["shape"]]),
    ("special characters", lambda d: [n["attrs"].update(name=u"<&>\"' \n\u65e5") for p in d["processes"]
                                      for n, _ in walk_nodes(p)]),
    ("same names", lambda d: [n["attrs"].update(name="same") for p in d["processes"] for n, _ in walk_nodes(p)]),
    ("ids look alike", lambda d: rename(d, {"t1": "f", "x1": "ff", "svc": "f11_", "p2": "p11", "q2": "q"})),
    ("sub-process flows dropped", lambda d: [_drop_flow(d, f) for f in ("s1", "s2", "g1")]),
    ("participant of unknown process", lambda d: d["collaboration"] and d["collaboration"]["participants"].append(
        participant("poolX", "X", "elsewhere"))),
    ("pools of the same process", lambda d: d["collaboration"] and d["collaboration"]["participants"].insert(
        1, participant("poolD", "Twin", "p1"))),
    ("long edges", lambda d: [f.update(waypoints=[(str(i), str(i * i)) for i in range(12)]) for p in d["processes"]
                              for f, _ in walk_flows(p)]),
]


def rename(d, m):
    def r(x):
        return m.get(x, x)
    for p in d["processes"]:
        for n, _ in list(walk_nodes(p)):
            n["id"] = r(n["id"])
            for a in ("attachedToRef",):
                if a in n["attrs"]:
                    n["attrs"][a] = r(n["attrs"][a])
        for f, _ in walk_flows(p):
            f["sourceRef"], f["targetRef"] = r(f["sourceRef"]), r(f["targetRef"])
        for l in walk_lanes(p["laneSet"]):
            l["refs"] = [r(x) for x in l["refs"]]
        p["id"] = r(p["id"])
    if d["collaboration"]:
        for x in d["collaboration"]["participants"]:
            x["processRef"] = r(x["processRef"])
        for f in d["collaboration"]["messageFlows"]:
            f["sourceRef"], f["targetRef"] = r(f["sourceRef"]), r(f["targetRef"])


def fam_dev(tier):
    for k in range(0, {"thorough": 5, "quick": 4, "short": 3}[tier]):
        for c in itertools.combinations(range(len(DEVIATIONS)), k):
            yield {"f": "dev", "set": list(c)}


def build_dev(c):
    d = rich()
    for i in c["set"]:
        DEVIATIONS[i][1](d)
    return d


# ---------------------------------------------------------------- texts, ids, geometry, sizes
def text_sites(d):
    yield lambda t: d["diagram"].update(name=t)
    for p in d["processes"]:
        yield lambda t, p=p: p["attrs"].update(name=t)
        for n, _ in walk_nodes(p):
            yield lambda t, n=n: n["attrs"].update(name=t)
        for f, _ in walk_flows(p):
            if f["id"] in ("f2", "s1", "g1"):
                yield lambda t, f=f: f["attrs"].update(name=t)
            if f["id"] in ("f3", "s2"):
                yield lambda t, f=f: f.update(cond=(f["cond"][0], t))
            if f["id"] == "f4":
                yield lambda t, f=f: f.update(cond=("cx", t))
        for l in walk_lanes(p["laneSet"]):
            if l["id"] in ("l1", "l3"):
                yield lambda t, l=l: l.update(name=t)
    for x in d["collaboration"]["participants"]:
        yield lambda t, x=x: x.update(name=t)
    yield lambda t: d["collaboration"]["messageFlows"][0]["attrs"].update(name=t)


NSITES = len(list(text_sites(rich())))


def fam_text(tier):
    for s in range(NSITES):
        for t in range(len(TEXTS)):
            yield {"f": "text", "site": s, "text": t}
    for w in lexicon.words():
        for k in WORD_KINDS:
            yield {"f": "text", "kind": k, "word": w}


def fam_words(tier):
    for w in lexicon.words():
        yield {"f": "text", "kind": "all", "word": w}


WORD_KINDS = ("all", "node", "flow", "cond", "process", "lane", "pool", "message", "sub", "top")


def say(d, kind, w):
    """Puts the word into every name of a kind."""
    for p in d["processes"]:
        if kind in ("all", "process"):
            p["attrs"]["name"] = w
        for n, s in walk_nodes(p):
            if kind in ("all", "node") or kind == "sub" and s is not p or kind == "top" and s is p:
                n["attrs"]["name"] = w
        for f, s in walk_flows(p):
            if kind in ("all", "flow") or kind == "sub" and s is not p or kind == "top" and s is p:
                f["attrs"]["name"] = w
            if kind in ("all", "cond"):
                f["cond"] = ("cw" + f["id"], w)
        for l in walk_lanes(p["laneSet"]):
            if kind in ("all", "lane"):
                l["name"] = w
    for x in d["collaboration"]["participants"]:
        if kind in ("all", "pool"):
            x["name"] = w
    for f in d["collaboration"]["messageFlows"]:
        if kind in ("all", "message"):
            f["attrs"]["name"] = w


def build_text(c):
    d = rich()
    if "word" in c:
        say(d, c["kind"], c["word"])
        return d
    list(text_sites(d))[c["site"]](TEXTS[c["text"]])
    return d


def fam_ids(tier):
    for kind in ("node", "sub", "flow", "process", "lane", "pool", "message", "collaboration", "diagram", "plane", "def",
                 "cond", "laneset"):
        for i in range(len(IDS)):
            yield {"f": "ids", "kind": kind, "id": i}
        if kind in WORD_IDS:
            for w in lexicon.idents():
                if w not in TAKEN:
                    yield {"f": "ids", "kind": kind, "id": w}
    for k in range(1, 1 << len(OPTIONAL_IDS)):
        yield {"f": "ids", "without": k}


TAKEN = ("a", "b", "e1", "inner", "inner2", "sub", "if", "p1", "f1", "f2", "c", "ls", "lane", "pool", "black", "col", "m1", "m2")
WORD_IDS = ("node", "sub", "flow", "process", "lane", "pool", "message")

# elements whose id may be left out
OPTIONAL_IDS = (
    lambda d: d["diagram"].update(id=None),
    lambda d: d["plane"].update(id=None),
    lambda d: [p["laneSet"].update(id=None) for p in d["processes"] if p["laneSet"]],
    lambda d: [l["child"].update(id=None) for p in d["processes"] for l in walk_lanes(p["laneSet"]) if l["child"]],
    lambda d: [f.update(cond=(None, f["cond"][1])) for p in d["processes"] for f, _ in walk_flows(p) if f["cond"]],
    lambda d: [n.update(defs=[(t, None) for t, _ in n["defs"]]) for p in d["processes"] for n, _ in walk_nodes(p)],
)


def build_ids(c):
    if "without" in c:
        d = rich()
        _f(d, "f4")["cond"] = ("c4", "a < 5")
        for k, f in enumerate(OPTIONAL_IDS):
            if c["without"] >> k & 1:
                f(d)
        return d
    i = c["id"] if isinstance(c["id"], str) else IDS[c["id"]]
    k = c["kind"]
    a = node("task", i if k == "node" else "a", "A")
    b = node("endEvent", "b", "B", defs=[("error", i if k == "def" else "e1")])
    inner = node("userTask", "inner", "I")
    s = node("subProcess", i if k == "sub" else "sub", "S", nodes=[inner, node("task", "inner2", "J")],
             flows=[flow("if", "inner", "inner2")])
    connect(s)
    p = connect(process(i if k == "process" else "p1", [a, s, b], [
        flow(i if k == "flow" else "f1", a["id"], s["id"], "", (i if k == "cond" else "c", "cond")),
        flow("f2", s["id"], "b")]))
    p["laneSet"] = lane_set(i if k == "laneset" else "ls", [lane(i if k == "lane" else "lane", "L", [a["id"], "b"])])
    d = new_doc()
    if k == "diagram":
        d["diagram"]["id"] = i
    if k == "plane":
        d["plane"]["id"] = i
    d["plane"]["bpmnElement"] = p["id"]
    d["processes"].append(p)
    pool, black = participant(i if k == "pool" else "pool", "P", p["id"]), participant("black", "B")
    d["collaboration"] = collaboration(i if k == "collaboration" else "col", [pool, black], [
        flow(i if k == "message" else "m1", a["id"], "black", "hello"), flow("m2", "black", pool["id"])])
    return d


NUMS = ["0", "1", "-1", "10", "100", "99999", "0.5", "-0.5", "12.75", "1e3", "007", "+5", "1.0", " 3",
        "1234.56789", "-2.50", "0.1", "123456789", "0.30000000000000004", "-0", "1E-7", "99999.5", "1234567.25", "-1000000", "000.125"]


def fam_geo(tier):
    for i in range(len(NUMS)):
        for j in range(4):
            for what in ("node", "lane", "pool", "black", "sub"):
                yield {"f": "geo", "n": i, "j": j, "what": what}
        for w in ("flow", "msg"):
            for j in range(6):
                yield {"f": "geo", "n": i, "j": j, "what": w}


def build_geo(c):
    d = rich()
    v = NUMS[c["n"]]
    k = ("x", "y", "width", "height")[c["j"] % 4]
    w = c["what"]
    if w == "node":
        _n(d, "t1")[0]["shape"][k] = v
    elif w == "sub":
        _n(d, "sm")[0]["shape"][k] = v
    elif w == "lane":
        d["processes"][0]["laneSet"]["lanes"][1]["child"]["lanes"][0]["shape"][k] = v
    elif w in ("pool", "black"):
        d["collaboration"]["participants"][0 if w == "pool" else 2]["shape"][k] = v
    else:
        f = _f(d, "f2") if w == "flow" else d["collaboration"]["messageFlows"][0]
        pts = [["1", "2"], ["3", "4"], ["5", "6"]]
        pts[c["j"] // 2][c["j"] % 2] = v
        f["waypoints"] = [tuple(x) for x in pts]
    return d


def fam_size(tier):
    big = sorted(set(tuple(range(1, 26)) + (31, 32, 33, 63, 64, 65, 99, 100, 101) + tuple(n for n in lexicon.numbers() if n) +
                     (() if tier == "quick" else tuple(range(26, 60)) + (127, 128, 129, 200))))
    for what in ("nodes", "depth", "out", "in", "waypoints", "processes", "lanes", "lanedepth", "pools", "messages",
                 "defs", "refs"):
        for n in big:
            if what in ("depth", "lanedepth") and n > 40:
                continue
            yield {"f": "size", "what": what, "n": n}


def build_size(c):
    n, w = c["n"], c["what"]
    d = new_doc()
    nodes, flows, lanes = [node("startEvent", "st", "St"), node("task", "a", "A")], [], None
    if w == "nodes":
        nodes += [node(NODE_TYPES[i % len(NODE_TYPES)], "n%d" % i, "N%d" % i) for i in range(n)]
        flows = [flow("f%d" % i, "n%d" % i, "n%d" % (i + 1)) for i in range(n - 1)]
    elif w == "depth":
        x = node("task", "leaf", "Leaf")
        for i in range(n):
            x = node("subProcess", "s%d" % i, "S%d" % i, nodes=[x, node("task", "k%d" % i, "K")],
                     flows=[flow("f%d" % i, x["id"], "k%d" % i)])
            connect(x)
        nodes.append(x)
    elif w in ("out", "in"):
        nodes += [node("task", "n%d" % i, "N%d" % i) for i in range(n)]
        flows = [flow("f%d" % i, "a", "n%d" % i, "b%d" % i) if w == "out" else flow("f%d" % i, "n%d" % i, "a")
                 for i in range(n)]
    elif w == "waypoints":
        flows = [flow("f", "st", "a", waypoints=[(str(i), str(-i)) for i in range(n)])]
    elif w == "lanes":
        lanes = lane_set("ls", [lane("l%d" % i, "L%d" % i, ["a"], shape=dict(BOX, y=str(i))) for i in range(n)])
    elif w == "refs":
        nodes += [node("task", "n%d" % i, "N%d" % i) for i in range(n)]
        lanes = lane_set("ls", [lane("l", "L", ["n%d" % (i * 7 % n) for i in range(n)] if n % 7 else
                                     ["n%d" % i for i in range(n)])])
    elif w == "lanedepth":
        x = lane("leaf", "Leaf", ["a"])
        for i in range(n):
            x = lane("l%d" % i, "L%d" % i, ["st"], lane_set("cs%d" % i, [x]))
        lanes = lane_set("ls", [x])
    elif w == "defs":
        nodes.append(node("startEvent", "ev", "Ev", defs=[(DEFS["startEvent"][i % 5], "d%d" % i) for i in range(n)]))
    d["processes"].append(connect(process("p1", nodes, flows, lanes)))
    if w == "processes":
        for i in range(n):
            d["processes"].append(connect(process("q%d" % i, [node("task", "x%d" % i, "X"), node("task", "y%d" % i, "Y")],
                                                  [flow("g%d" % i, "x%d" % i, "y%d" % i, "G")], name="Q%d" % i)))
    if w in ("pools", "messages"):
        ps = [participant("b%d" % i, "B%d" % i) for i in range(n)]
        ms = [flow("m%d" % i, "a" if i % 2 else "b%d" % i, "b%d" % i if i % 2 else "a", "M%d" % i) for i in range(n)]
        d["collaboration"] = collaboration("col", [participant("pool", "P", "p1")] + ps, ms if w == "messages" else [])
    return d


# ---------------------------------------------------------------- ids and names that look alike
def every_id(d):
    """kind -> ids of that kind, in document order."""
    out = {"node": [], "flow": [], "process": [], "lane": [], "pool": [], "message": [], "def": [], "cond": [], "laneset": []}

    def sets(ls):
        if ls:
            out["laneset"].append(ls["id"])
            for l in ls["lanes"]:
                sets(l["child"])
    for p in d["processes"]:
        out["process"].append(p["id"])
        for n, _ in walk_nodes(p):
            out["node"].append(n["id"])
            out["def"] += [i for _, i in n["defs"]]
        for f, _ in walk_flows(p):
            out["flow"].append(f["id"])
            if f["cond"]:
                out["cond"].append(f["cond"][0])
        out["lane"] += [l["id"] for l in walk_lanes(p["laneSet"])]
        sets(p["laneSet"])
    if d["collaboration"]:
        out["pool"] = [x["id"] for x in d["collaboration"]["participants"]]
        out["message"] = [f["id"] for f in d["collaboration"]["messageFlows"]]
    return {k: [i for i in v if i is not None] for k, v in out.items()}


def reid(d, m):
    """Renames ids and every reference to them."""
    def r(x):
        return m.get(x, x)

    def rf(f):
        f["id"], f["sourceRef"], f["targetRef"] = r(f["id"]), r(f["sourceRef"]), r(f["targetRef"])
        if f["cond"]:
            f["cond"] = (r(f["cond"][0]), f["cond"][1])

    def sets(ls):
        if ls:
            ls["id"] = r(ls["id"])
            for l in ls["lanes"]:
                l["id"], l["refs"] = r(l["id"]), [r(x) for x in l["refs"]]
                sets(l["child"])
    for p in d["processes"]:
        p["id"] = r(p["id"])
        for n, _ in list(walk_nodes(p)):
            n["id"] = r(n["id"])
            n["incoming"], n["outgoing"] = [r(x) for x in n["incoming"]], [r(x) for x in n["outgoing"]]
            n["defs"] = [(k, r(i)) for k, i in n["defs"]]
            for a in ("attachedToRef", "default"):
                if a in n["attrs"]:
                    n["attrs"][a] = r(n["attrs"][a])
        for f, _ in list(walk_flows(p)):
            rf(f)
        sets(p["laneSet"])
    if d["collaboration"]:
        for x in d["collaboration"]["participants"]:
            x["id"], x["processRef"] = r(x["id"]), r(x["processRef"])
        for f in d["collaboration"]["messageFlows"]:
            rf(f)
    d["plane"]["bpmnElement"] = r(d["plane"]["bpmnElement"])


def _case(i):
    return "".join(c.upper() if i >> k & 1 else c for k, c in enumerate("aliasid"))


SCHEMES = {                                      # number of the element, number of elements -> id
    "prefix": lambda i, n: "z" * (i + 1),
    "prefix down": lambda i, n: "z" * (n - i),
    "suffix": lambda i, n: "z%d" % (n - i) + "9" * i,
    "numbers": lambda i, n: "n%d" % (i + 1),
    "numbers down": lambda i, n: "n%d" % (n - i),
    "case": lambda i, n: _case(i),
    "digits": lambda i, n: "_%d" % (10 ** i if i < 60 else i),
    "keywords": lambda i, n: (["id", "name", "type", "process", "task", "sequenceFlow", "incoming", "outgoing", "default",
                               "None", "none", "true", "process_id", "source", "target", "sourceRef", "targetRef",
                               "waypoints", "x", "y", "width", "height", "BPMNShape", "BPMNEdge", "messageFlows",
                               "participants", "lanes", "laneSet", "node_ids", "definitions", "collaboration", "bpmnElement",
                               "subProcess", "startEvent", "endEvent", "participant", "messageFlow", "lane",
                               "conditionExpression", "condition_id", "sequence_flow_id", "event_definitions"][i]
                              if i < 42 else "k%d" % i),
}
LISTED = ("all", "none", "incoming", "outgoing", "half", "reversed")


def relist(d, mode):
    for p in d["processes"]:
        for n, _ in walk_nodes(p):
            if mode in ("none", "outgoing"):
                n["incoming"] = []
            if mode in ("none", "incoming"):
                n["outgoing"] = []
            if mode == "half":
                n["incoming"], n["outgoing"] = n["incoming"][1::2], n["outgoing"][0::2]
            if mode == "reversed":
                n["incoming"].reverse()
                n["outgoing"].reverse()


def fan():
    """Nodes with many flows, two levels, two processes and pools of the same shape."""
    d = new_doc()
    ps = []
    for k in range(2):
        def scope(pre, inner):
            hub = node("exclusiveGateway", pre + "h", "H")
            sink = node("inclusiveGateway", pre + "s", "S")
            mids = [node("task", pre + "m%d" % i, "M") for i in range(5)] + inner
            fl = [flow(pre + "o%d" % i, hub["id"], m["id"], "yes" if i % 2 else None) for i, m in enumerate(mids)] + \
                 [flow(pre + "i%d" % i, m["id"], sink["id"]) for i, m in enumerate(mids)] + [
                     flow(pre + "b", sink["id"], hub["id"])]
            return connect({"nodes": [hub] + mids + [sink], "flows": fl})
        s = scope("u%d" % k, [])
        t = scope("v%d" % k, [node("subProcess", "w%d" % k, "W", nodes=s["nodes"], flows=s["flows"])])
        p = process("p%d" % (k + 1), t["nodes"], t["flows"], name="P")
        p["laneSet"] = lane_set("ls%d" % k, [lane("la%d" % k, "L", ["v%dh" % k, "v%ds" % k]),
                                             lane("lb%d" % k, "L", ["v%dm%d" % (k, i) for i in range(5)])])
        d["processes"].append(p)
        ps.append(participant("pool%d" % k, "Pool", "p%d" % (k + 1)))
    d["collaboration"] = collaboration("col", ps + [participant("bb0", "Box"), participant("bb1", "Box")], [
        flow("ma", "v0m0", "v1m0", "hello"), flow("mb", "v1m0", "v0m0", "hello"), flow("mc", "bb0", "v0m0", "hello"),
        flow("md", "v0m0", "bb1"), flow("me", "bb1", "pool1", "hello"), flow("mf", "u0m1", "u1m1")])
    return d


NAMES = {"same": lambda i, own, nxt, typ: "same", "empty": lambda i, own, nxt, typ: "",
         "absent": lambda i, own, nxt, typ: None, "own id": lambda i, own, nxt, typ: own,
         "other's id": lambda i, own, nxt, typ: nxt, "type": lambda i, own, nxt, typ: typ,
         "two": lambda i, own, nxt, typ: "AB"[i % 2], "prefixes": lambda i, own, nxt, typ: "n" * (i + 1),
         "case": lambda i, own, nxt, typ: "Name" if i % 2 else "name", "space": lambda i, own, nxt, typ: " " * (i % 3)}


def rename_all(d, scheme, kinds):
    todo = []
    for p in d["processes"]:
        if "process" in kinds:
            todo.append((p["attrs"], p["id"], "process"))
        if "node" in kinds:
            todo += [(n["attrs"], n["id"], n["type"]) for n, _ in walk_nodes(p)]
        if "flow" in kinds:
            todo += [(f["attrs"], f["id"], "sequenceFlow") for f, _ in walk_flows(p)]
        if "lane" in kinds:
            todo += [(l, l["id"], "lane") for l in walk_lanes(p["laneSet"])]
    if d["collaboration"]:
        if "pool" in kinds:
            todo += [(x, x["id"], "participant") for x in d["collaboration"]["participants"]]
        if "message" in kinds:
            todo += [(f["attrs"], f["id"], "messageFlow") for f in d["collaboration"]["messageFlows"]]
    for i, (t, own, typ) in enumerate(todo):
        v = NAMES[scheme](i, own, todo[(i + 1) % len(todo)][1], typ)
        if v is not None:
            t["name"] = v
        elif "id" in t:
            t["name"] = None
        else:
            t.pop("name", None)


ALIAS_BASES = {"rich": rich, "fan": fan}
ID_KINDS = ("node", "flow", "process", "lane", "pool", "message", "def", "cond", "laneset")
NAME_KINDS = ("node", "flow", "process", "lane", "pool", "message")


def fam_alias(tier):
    for b in ALIAS_BASES:
        for s in SCHEMES:
            for k in ID_KINDS + ("all", "node+flow"):
                for l in LISTED:
                    yield {"f": "alias", "b": b, "ids": s, "k": k, "l": l}
        for s in NAMES:
            for k in NAME_KINDS + ("all",):
                for l in LISTED[:2]:
                    yield {"f": "alias", "b": b, "names": s, "nk": k, "l": l}
        for s in SCHEMES:
            for n in NAMES:
                for l in (LISTED if tier == "thorough" else LISTED[:1]):
                    yield {"f": "alias", "b": b, "ids": s, "k": "all", "names": n, "nk": "all", "l": l}


def build_alias(c):
    d = ALIAS_BASES[c["b"]]()
    relist(d, c["l"])
    if "ids" in c:
        ids = every_id(d)
        kinds = ID_KINDS if c["k"] == "all" else c["k"].split("+")
        todo = [i for k in kinds for i in ids[k]]
        reid(d, {x: SCHEMES[c["ids"]](i, len(todo)) for i, x in enumerate(todo)})
    if "names" in c:
        rename_all(d, c["names"], NAME_KINDS if c["nk"] == "all" else (c["nk"],))
    return d


FAMILIES = {"node": fam_node, "flow": fam_flow, "graph": fam_graph, "nest": fam_nest, "process": fam_process,
            "pool": fam_pool, "lane": fam_lane, "dev": fam_dev, "text": fam_text, "ids": fam_ids, "geo": fam_geo,
            "size": fam_size, "words": fam_words, "alias": fam_alias}
BUILD = {"node": build_node, "sublane": build_sublane, "flow": build_flow, "graph": build_graph, "nest": build_nest, "process": build_process,
         "pool": build_pool, "pools": build_pools, "msg": build_msg, "lane": build_lane, "lane1": build_lane1, "dev": build_dev,
         "text": build_text, "ids": build_ids, "geo": build_geo, "size": build_size, "alias": build_alias}


def cases(tier, families):
    for name in families:
        for c in FAMILIES[name](tier):
            yield c


def tuples(x):
    """JSON turns tuples into lists; forests are compared structurally only, so this is all that is needed."""
    return tuple(tuples(y) for y in x) if isinstance(x, (list, tuple)) else x


def build(case):
    return BUILD[case["f"]](case)
