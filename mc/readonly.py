# coding=utf-8
"""All operations that only read a diagram, and diagrams to run them on."""
import copy
import os

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import networkx as nx

import bpmn_python.bpmn_diagram_layouter as layouter
import bpmn_python.bpmn_diagram_metrics as metrics
import bpmn_python.bpmn_diagram_visualizer as visualizer
import bpmn_python.diagram_layout_metrics as layout_metrics
from mc import docs, history, lib, model

COUNTS = ["all_activities_count", "all_gateways_count", "all_control_flow_elements_count", "all_events_count",
          "TNSE_metric", "TNIE_metric", "TNEE_metric", "TNE_metric", "NOA_metric", "NOAC_metric", "NOAJS_metric",
          "NumberOfNodes_metric", "GatewayHeterogenity_metric"]
DICTS = ["get_gateway_counts", "get_events_counts", "get_activities_counts"]
RATIOS = ["CoefficientOfNetworkComplexity_metric", "AverageGatewayDegree_metric", "DurfeeSquare_metric",
          "PerfectSquare_metric"]
LAYOUT = ["count_crossing_points", "count_segments", "compute_longest_path", "compute_longest_path_tasks"]


def plain(x):
    """A value independent of the diagram's own objects."""
    if isinstance(x, (str, int, float, bytes, bool)) or x is None:
        return x
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return [plain(y) for y in x]


def fake_dot(directory):
    """A stand-in for Graphviz that returns its input."""
    path = os.path.join(directory, "bin")
    if not os.path.isdir(path):
        os.makedirs(path)
        for name in ("dot",):
            p = os.path.join(path, name)
            with open(p, "w") as f:
                f.write('#!/bin/sh\nfor a; do f="$a"; done\nexec /bin/cat "$f"\n')
            os.chmod(p, 0o755)
    return path


def png(d, base, tools=""):
    """The picture as drawn by the stand-in; tools: directory for the stand-in, None for no Graphviz at all."""
    old = os.environ.get("PATH", "")
    if tools is None:
        os.environ["PATH"] = os.path.dirname(base)
    else:
        os.environ["PATH"] = fake_dot(os.path.dirname(tools or base)) + os.pathsep + old
    try:
        visualizer.bpmn_diagram_to_png(d, base)
    finally:
        os.environ["PATH"] = old
    return lib.slurp(base + ".png")


def dot(d, base):
    visualizer.bpmn_diagram_to_dot_file(d, base)
    return lib.slurp(base + ".dot")


def operations():
    """name -> function(diagram, directory)"""
    ops = {}

    def first(d, what):
        for x in (d.get_nodes() if what == "n" else d.get_flows()):
            return x[0] if what == "n" else x[2].get("id")
        return "none"

    def pid(d):
        for p in d.process_elements:
            return p
        return "none"
    ops["get_nodes"] = lambda d, p: d.get_nodes()
    for t in ("task", "subProcess", "exclusiveGateway", "nonsense"):
        ops["get_nodes " + t] = lambda d, p, t=t: d.get_nodes(t)
        ops["get_nodes_id_list_by_type " + t] = lambda d, p, t=t: d.get_nodes_id_list_by_type(t)
    ops["get_nodes_list_by_process_id"] = lambda d, p: d.get_nodes_list_by_process_id(pid(d))
    ops["get_nodes_list_by_process_id unknown"] = lambda d, p: d.get_nodes_list_by_process_id("nope")
    ops["get_node_by_id"] = lambda d, p: d.get_node_by_id(first(d, "n"))
    ops["get_node_by_id unknown"] = lambda d, p: d.get_node_by_id("nope")
    ops["get_flows"] = lambda d, p: d.get_flows()
    ops["get_flow_by_id"] = lambda d, p: d.get_flow_by_id(first(d, "f"))
    ops["get_flow_by_id unknown"] = lambda d, p: d.get_flow_by_id("nope")
    ops["get_flows_list_by_process_id"] = lambda d, p: d.get_flows_list_by_process_id(pid(d))
    ops["get_nodes_positions"] = lambda d, p: d.get_nodes_positions()
    for m in COUNTS + DICTS + RATIOS:
        ops[m] = lambda d, p, m=m: getattr(metrics, m)(d)
    ops["get_nodes_count"] = lambda d, p: metrics.get_nodes_count(d)
    ops["get_nodes_count task"] = lambda d, p: metrics.get_nodes_count(d, "task")
    ops["get_all_gateways"] = lambda d, p: list(metrics.get_all_gateways(d))
    for m in LAYOUT:
        ops[m] = lambda d, p, m=m: getattr(layout_metrics, m)(d)
    ops["export xml"] = lambda d, p: lib.export(d, p, "r.bpmn")
    ops["export xml no di"] = lambda d, p: lib.export(d, p, "rn.bpmn", no_di=True)
    ops["export csv"] = lambda d, p: lib.export_csv(d, p, "r.csv")
    ops["dot"] = lambda d, p: dot(d, p + "g")
    ops["png"] = lambda d, p: png(d, p + "h")
    ops["screen"] = lambda d, p: screen(d)
    for k in EXPORTS:
        ops["failing export %s: a file in place of the directory" % k] = lambda d, p, k=k: blocked(d, k, p)
        ops["failing export %s: a directory in place of the file" % k] = lambda d, p, k=k: occupied(d, k, p)
        ops["failing export %s: file size limit" % k] = lambda d, p, k=k: cut(d, k, p)
    ops["failing dot: no such directory"] = lambda d, p: visualizer.bpmn_diagram_to_dot_file(d, p + "no/such/g")
    ops["failing png: no such directory"] = lambda d, p: png(d, p + "no/such/g", p)
    ops["failing png: no Graphviz"] = lambda d, p: png(d, p + "i", None)
    return ops


EXPORTS = {"xml": "export_xml_file", "no di": "export_xml_file_no_di", "csv": "export_csv_file"}


def screen(d):
    """The on-screen drawing, with the calls that draw replaced by ones that record."""
    calls = []

    def recorder(name):
        return lambda *a, **kw: calls.append([name, plain(a[2:]), plain({k: kw[k] for k in sorted(kw)})])
    names = [n for n in dir(nx) if n.startswith("draw")]
    old = [(nx, n, getattr(nx, n)) for n in names] + [(visualizer, n, getattr(visualizer, n)) for n in names
                                                      if hasattr(visualizer, n)]
    old.append((plt, "show", plt.show))
    try:
        for m, n, _ in old:
            setattr(m, n, recorder(n))
        visualizer.visualize_diagram(d)
    finally:
        for m, n, f in old:
            setattr(m, n, f)
    return calls


def blocked(d, kind, p):
    path = p + "blocker"
    with open(path, "w") as h:
        h.write("x")
    return getattr(d, EXPORTS[kind])(path + "/", "x")


def occupied(d, kind, p):
    if not os.path.isdir(p + "occupied/x/y"):
        os.makedirs(p + "occupied/x/y")
    return getattr(d, EXPORTS[kind])(p + "occupied/", "x")


def cut(d, kind, p):
    e = lib.limited(lambda: getattr(d, EXPORTS[kind])(p, "cut"), 40)
    if e is not None:
        raise e


def outcome(f, d, p):
    try:
        return ["value", plain(f(d, p))]
    except Exception as e:
        return ["exception", type(e).__name__]


def raw(d):
    """Everything the diagram holds, exactly."""
    return copy.deepcopy({"nodes": [(k, dict(v)) for k, v in d.get_nodes()],
                          "flows": [(u, v, dict(a)) for u, v, a in d.get_flows()],
                          "sequence_flows": d.sequence_flows, "processes": d.process_elements,
                          "diagram": d.diagram_attributes, "plane": d.plane_attributes,
                          "collaboration": d.collaboration})


CSV1 = """Order,Activity,Condition,Who,Subprocess,Terminated
0,go,,,,
1,first,,Bob,,
2a,left,yes,,,
2b,right,no,,sub,
3,after,,,,
4a,par1,,,,
4b1,par2,,,,
4b2,par3,,,,
5,mid,,,,
6a,x,else,,,
6b,y,big,,,yes
7,end,,,,yes
"""
CSV2 = """Order,Activity,Condition,Who,Subprocess,Terminated
0,start,,,,
1,a,,,,
2a,goto 1,again,,,
2b,b,else,,,
3,end,,,,yes
"""


def conditional(ctx_path):
    d = model.new_doc()
    from mc.model import connect, flow, node, process
    d["processes"].append(connect(process("p1", [
        node("startEvent", "s", "S"), node("exclusiveGateway", "g", "G", default="f3"), node("task", "a", "A"),
        node("task", "b", "B"), node("exclusiveGateway", "j", ""), node("endEvent", "e", "E")],
        [flow("f1", "s", "g"), flow("f2", "g", "a", "", ("c", "x > 1")), flow("f3", "g", "b"), flow("f4", "a", "j"),
         flow("f5", "b", "j"), flow("f6", "j", "e")], name="P")))
    return lib.load(model.serialize(d), ctx_path)


def api(ops, layout=False):
    d = lib.BpmnDiagramGraph()
    history.play(d, ops)
    if layout:
        layouter.generate_layout(d)
    return d


CHAIN = [["new", "D"], ["proc", {"process_name": "P"}], ["start", 0, {"start_event_name": "s"}],
         ["task", 0, {"task_name": "t"}], ["xor", 0, {"gateway_name": "g"}], ["task", 0, {"task_name": "u"}],
         ["sub", 0, {"subprocess_name": "v"}], ["xor", 0], ["end", 0, {"end_event_name": "e"}], ["flow", 0, 0, 1],
         ["flow", 0, 1, 2], ["flow", 0, 2, 3, {"sequence_flow_name": "yes"}],
         ["flow", 0, 2, 4, {"sequence_flow_name": "no"}], ["flow", 0, 3, 5], ["flow", 0, 4, 5], ["flow", 0, 5, 6]]
DIAGRAMS = {
    "unused": lambda p: lib.BpmnDiagramGraph(),
    "new": lambda p: api([["new"]]),
    "process only": lambda p: api([["new"], ["proc"]]),
    "one task": lambda p: api([["new"], ["proc"], ["task", 0]]),
    "chain": lambda p: api(CHAIN),
    "chain laid out": lambda p: api(CHAIN, True),
    "loop": lambda p: api([["new"], ["proc"], ["start", 0], ["task", 0], ["and", 0], ["task", 0], ["flow", 0, 0, 1],
                           ["flow", 0, 1, 2], ["flow", 0, 2, 1], ["flow", 0, 2, 3]], True),
    "opposite": lambda p: api([["new"], ["proc"], ["task", 0], ["task", 0], ["flow", 0, 0, 1], ["flow", 0, 1, 0]]),
    "self loop": lambda p: api([["new"], ["proc"], ["start", 0], ["task", 0], ["flow", 0, 0, 1], ["flow", 0, 1, 1]]),
    "two starts": lambda p: api([["new"], ["proc"], ["start", 0], ["start", 0], ["task", 0], ["flow", 0, 0, 2],
                                 ["flow", 0, 1, 2]], True),
    "two processes": lambda p: api([["new"], ["proc"], ["proc"], ["start", 0], ["task", 1], ["sub", 1], ["task", 2]]),
    "rich": lambda p: lib.load(model.serialize(docs.rich()), p + "rich.bpmn"),
    "conditional": lambda p: conditional(p + "cond.bpmn"),
    "csv": lambda p: lib.load_csv(CSV1, p + "a.csv"),
    "csv laid out": lambda p: _laid(lib.load_csv(CSV1, p + "a.csv")),
    "csv goto": lambda p: lib.load_csv(CSV2, p + "b.csv"),
}


def _laid(d):
    layouter.generate_layout(d)
    return d
