# coding=utf-8
"""C02: rejected construction calls have no effect, at any point of any history."""
import copy

from mc import docs, history, lib, model
from mc.core import fail, same

RULE = ("every history of construction calls up to the depth x every invalid call (each gateway method with every illegal "
        "direction and with a fresh, absent or already used node id; sequence flows with unknown source, target or both) x "
        "a continuation of valid calls; the call must raise, the diagram and its exports must be unchanged and the "
        "continuation must behave as in the model; a case is a distinct (history, call, continuation)")
BOUND = {"quick": "histories of 4 operations after new+process (5 with one node kind), plus rich imported and CSV diagrams",
         "thorough": "histories of 5 operations (6 with one node kind)"}
ASSUMPTIONS = ["histories hold at most one flow per ordered pair of nodes"]

DIRECTIONS = ["", "unspecified", "diverging", "Diverging ", " Mixed", "converging", "None", "Both", "MIXED", None, 0, 1, False,
              ["Mixed"], "Div", "Unspecified,Mixed", "DivergingConverging"]
BAD = []
for _k in ("xor", "or", "and", "gw:exclusiveGateway", "gw:inclusiveGateway", "gw:parallelGateway", "gw:eventBasedGateway",
           "gw:complexGateway"):
    for _d in DIRECTIONS:
        BAD.append([_k, _d, None])
    for _id in ("new", "old"):
        BAD.append([_k, "Sideways", _id])
for _s in ("known", "?nowhere", "?", None, "process", "flow", 7, "upper", "longer", "shorter", "padded", "name", "diagram"):
    for _t in ("known", "?nowhere", "?", None, "process", "flow", 7, "known2", "upper", "longer", "shorter", "padded", "name",
               "diagram"):
        if _s in ("upper", "longer", "shorter", "padded", "name", "diagram") and _t not in ("known", "known2", "?nowhere", _s):
            continue
        if not (_s == "known" and _t in ("known", "known2")):
            BAD.append(["flow", _s, _t])
CONT = [[["task", 0], ["xor", 0, {"gateway_direction": "Mixed", "node_id": "later"}], ["flow", 0, -2, -1]],
        [["proc"], ["start", 0, {"start_event_definition": "timer"}]]]


def cases(tier):
    for ops in history.sequences(5 if tier == "thorough" else 4, renew=False):
        groups = 3 if len(ops) < 5 else 1
        for g in range(groups):
            yield {"ops": ops, "part": [g, groups]}
    for ops in history.sequences(6 if tier == "thorough" else 5, kinds=("and",), maxscopes=1, renew=False):
        yield {"ops": ops, "part": [0, 1]}
    for src in ("rich", "csv"):
        for g in range(4):
            yield {"src": src, "part": [g, 4]}


CSV = "Order,Activity,Condition,Who,Subprocess,Terminated\n0,go,,,,\n1a,do,yes,,,\n1b,dont,no,,,\n2,end,,,,yes\n"


def run(case, ctx):
    g, n = case["part"]
    if "src" in case:
        path = ctx.scratch + "/r.x"
        d = lib.load(model.serialize(docs.rich()), path) if case["src"] == "rich" else lib.load_csv(CSV, path)
        s = model.snapshot(d)
        ids = [k for k, v in s["nodes"].items() if v["type"] != "participant"]
        pid, fid = sorted(s["processes"])[0], sorted(s["flows"])[0]
        for bad in BAD[g::n]:
            reject(d, bad, pid, ids, fid, ctx)
        same("diagram after rejected calls", model.snapshot(d), s)
        # flows of nodes that are not drawn: refused or not, but never by halves
        undrawn = [k for k in ids if "x" not in s["nodes"][k]]
        for a in undrawn:
            for b in ids[:4] + undrawn:
                for u, v in ((a, b), (b, a)):
                    raw = rawdata(d)
                    try:
                        d.add_sequence_flow_to_diagram(pid, u, v)
                    except Exception:
                        same("diagram after the rejected flow %s -> %s" % (u, v), rawdata(d), raw)
                    ctx.step()
        ctx.state((case["src"], g))
        ctx.trace()
        return
    r = history.play(lib.BpmnDiagramGraph(), case["ops"])
    out = ctx.dir()
    exports = [lib.export(r.d, out), lib.export(r.d, out, "n", no_di=True)]
    raw = rawdata(r.d)
    for bad in BAD[g::n]:
        reject(r.d, bad, r.scopes[0], r.nodes, (r.flows or ["noflow"])[0], ctx)
        same("diagram after rejected call %r" % (bad,), rawdata(r.d), raw)
    r.compare("diagram after the rejected calls")
    same("exports after the rejected calls", [lib.export(r.d, out, "a"), lib.export(r.d, out, "b", no_di=True)], exports)
    # later valid calls
    for cont in CONT:
        for op in cont:
            if op[0] == "flow":
                op = ["flow", 0, len(r.nodes) - 2, len(r.nodes) - 1]
            r.do(op)
        r.compare("diagram after valid calls that follow rejected ones")
        if cont is CONT[0]:
            for bad in BAD[g::n][:6]:
                reject(r.d, bad, r.scopes[0], r.nodes, (r.flows or ["noflow"])[0], ctx)
            r.compare("diagram after further rejected calls")
    ctx.step(len(case["ops"]) + 8)
    ctx.state(repr(case))
    ctx.trace()
    ctx.outcome("%d nodes" % len(r.nodes))


def reject(d, bad, pid, ids, fid, ctx):
    if bad[0] == "flow":
        table = {"known": ids[0] if ids else "?none", "known2": ids[-1] if ids else "?none", "?nowhere": "nowhere",
                 "?": "", "process": pid, "flow": fid, None: None, 7: 7, "diagram": d.diagram_attributes.get("id")}
        some = ids[0] if ids else "none"
        table.update(upper=some.upper() if some.upper() not in ids else "NONE", longer=some + "0", shorter=some[:-1],
                     padded=some + " ", name=d.get_node_by_id(some)[1]["node_name"] if ids else "none")
        table.update({k: table[k] + "~" for k in ("longer", "shorter", "name") if table[k] in ids})
        args = [pid, table[bad[1]], table[bad[2]], "bad flow"]
        f = d.add_sequence_flow_to_diagram
        kw = {}
    else:
        kw = {"gateway_name": "bad gateway", "gateway_direction": copy.copy(bad[1])}
        if bad[2] is not None:
            kw["node_id"] = "brand_new" if bad[2] == "new" else (ids[0] if ids else "brand_new")
        if bad[0].startswith("gw:"):
            args, f = [pid, bad[0][3:]], d.add_gateway_to_diagram
        else:
            args, f = [pid], getattr(d, history.METHOD[bad[0]])
    try:
        f(*args, **kw)
    except Exception:
        ctx.step()
        return
    fail("invalid call %r with %r %r was accepted" % (bad, args, kw))


def rawdata(d):
    return copy.deepcopy({"nodes": {k: dict(v) for k, v in d.get_nodes()},
                          "flows": {(u, v): dict(a) for u, v, a in d.get_flows()},
                          "sequence_flows": d.sequence_flows, "processes": d.process_elements,
                          "diagram": d.diagram_attributes, "plane": d.plane_attributes,
                          "collaboration": d.collaboration})
