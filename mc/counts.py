# coding=utf-8
"""Diagrams with given numbers of elements of each type."""
import itertools

from mc import lib, model
from mc.model import connect, flow, new_doc, node, process

TYPES = list(model.NODE_TYPES)
ACTIVITIES = ("task", "subProcess")
EVENTS = ("startEvent", "endEvent", "intermediateCatchEvent", "intermediateThrowEvent")
GATEWAYS = ("inclusiveGateway", "exclusiveGateway", "parallelGateway", "eventBasedGateway", "complexGateway")


LOOKALIKES = {"pad": lambda i: "n" + " " * i, "prefix": lambda i: "n" * (i + 1), "padleft": lambda i: " " * i + "n",
              "case": lambda i: "".join(c.upper() if i >> k & 1 else c for k, c in enumerate("abcdefgh")),
              "digits": lambda i: "n" + "0" * i + "1", "dots": lambda i: "n" + "." * i + "n"}


def bag_doc(bag, order=0, place="flat", names=0, flows=0, ids=None):
    """bag: list of (type, count)."""
    items = [t for t, n in bag for _ in range(n)]
    if order == 1:
        items = items[::-1]
    elif order == 2:
        items = items[::2] + items[1::2]
    doc = new_doc()
    nodes = []
    for i, t in enumerate(items):
        attrs = {}
        if t == "boundaryEvent":
            attrs["attachedToRef"] = "n0"
        name = [None, "", "task", TYPES[(i + 3) % len(TYPES)], "same"][names]
        i = LOOKALIKES[ids](i) if ids else "n%d" % i
        nodes.append(node(t, i, name, **attrs))
    fl = []
    k = len(nodes)
    if flows == 1:
        fl = [flow("f%d" % i, "n%d" % i, "n%d" % (i + 1)) for i in range(k - 1)]
    elif flows == 2 and k:
        fl = [flow("f%d" % i, "n%d" % i, "n%d" % ((i * 3 + 1) % k)) for i in range(k)]
    if place == "flat":
        doc["processes"].append(connect(process("p1", nodes, fl)))
    elif place == "nested":
        inner = node("subProcess", "wrap", "W", nodes=nodes, flows=fl)
        connect(inner)
        doc["processes"].append(connect(process("p1", [inner], [])))
    elif place == "processes":
        h = k // 2
        doc["processes"].append(connect(process("p1", nodes[:h], [])))
        doc["processes"].append(connect(process("p2", nodes[h:], [])))
        fl = []
    tally = {}
    for t in items + (["subProcess"] if place == "nested" else []):
        tally[t] = tally.get(t, 0) + 1
    return doc, tally, len(fl)


def load(doc, ctx):
    return lib.load(model.serialize(doc), ctx.scratch + "/in.bpmn")


def expected_counts(tally):
    """All counting metrics from the numbers of elements of each type."""
    n = lambda *ts: sum(tally.get(t, 0) for t in ts)
    gw, ev, ac = n(*GATEWAYS), n(*EVENTS), n(*ACTIVITIES)
    return {
        "TNSE_metric": n("startEvent"), "TNEE_metric": n("endEvent"),
        "TNIE_metric": n("intermediateCatchEvent", "intermediateThrowEvent"), "TNE_metric": ev, "all_events_count": ev,
        "all_activities_count": ac, "NOA_metric": ac, "all_gateways_count": gw,
        "all_control_flow_elements_count": gw + ev, "NOAC_metric": ac + gw + ev, "NumberOfNodes_metric": ac + gw + ev,
        "NOAJS_metric": ac + gw, "GatewayHeterogenity_metric": sum(1 for t in GATEWAYS if tally.get(t)),
    }


def durfee(counts):
    return max([d for d in range(len(counts) + 1) if sum(c >= d for c in counts) >= d] or [0]) if counts else 0


def perfect(counts):
    c = sorted(counts, reverse=True)
    return max(p for p in range(len(c) + 1) if sum(c[:p]) >= p * p)
