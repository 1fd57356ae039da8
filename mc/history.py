# coding=utf-8
"""Histories of construction calls: executed on the real diagram and on the reference model side by side.

An operation is a list:
  ["new", name?]  ["proc", {kwargs}]  [kind, scope, {kwargs}]  ["flow", scope, source, target, {kwargs}]
kind is one of task sub start end xor or and gw:<type>; scope, source and target are indexes in creation order
(scope "?x" is passed on as the id "x").
"""
import itertools

from mc.core import fail, same
from mc.model import snapshot

GEO = {"x": 100.0, "y": 100.0, "width": 100.0, "height": 100.0}
NAME = {"task": "task_name", "sub": "subprocess_name", "start": "start_event_name", "end": "end_event_name",
        "xor": "gateway_name", "or": "gateway_name", "and": "gateway_name"}
TYPE = {"task": "task", "sub": "subProcess", "start": "startEvent", "end": "endEvent", "xor": "exclusiveGateway",
        "or": "inclusiveGateway", "and": "parallelGateway"}
METHOD = {"task": "add_task_to_diagram", "sub": "add_subprocess_to_diagram", "start": "add_start_event_to_diagram",
          "end": "add_end_event_to_diagram", "xor": "add_exclusive_gateway_to_diagram",
          "or": "add_inclusive_gateway_to_diagram", "and": "add_parallel_gateway_to_diagram"}
# positional order of the optional parameters, for calls without keywords
ORDER = {"task": ["task_name", "node_id"],
         "sub": ["subprocess_name", "is_expanded", "triggered_by_event", "node_id"],
         "start": ["start_event_name", "start_event_definition", "parallel_multiple", "is_interrupting", "node_id"],
         "end": ["end_event_name", "end_event_definition", "node_id"],
         "xor": ["gateway_name", "gateway_direction", "default", "node_id"],
         "or": ["gateway_name", "gateway_direction", "default", "node_id"],
         "and": ["gateway_name", "gateway_direction", "node_id"]}
PROC_ORDER = ["process_name", "process_is_closed", "process_is_executable", "process_type"]


def tf(x):
    return "true" if x else "false"


class Run(object):
    """A diagram under construction together with its model."""

    def __init__(self, diagram):
        self.d = diagram
        self.ids = set()
        self.refs = {}
        self.clear()

    def clear(self):
        self.m = {"diagram": {"id": "", "name": ""}, "plane": {"id": "", "bpmnElement": None}, "processes": {},
                  "nodes": {}, "flows": {}, "sequence_flows": {}, "collaboration": None}
        self.scopes, self.nodes, self.flows = [], [], []
        self.refs = {}
        self.ids = set()

    def adopt(self):
        """Starts from what the diagram holds now (an imported one): the construction calls extend it."""
        self.m = snapshot(self.d)
        self.scopes = list(self.m["processes"]) + [k for k, n in self.m["nodes"].items() if n["type"] == "subProcess"]
        self.nodes = [k for k, n in self.m["nodes"].items() if n["type"] != "participant"]
        self.flows = list(self.m["flows"])
        self.refs = {}
        self.ids = set(self.m["nodes"]) | set(self.m["flows"]) | set(self.m["processes"]) | {
            self.m["diagram"]["id"], self.m["plane"]["id"]} | {
                i for n in self.m["nodes"].values() for _, i in n.get("defs", ()) if i} | {
                    f["cond"][0] for f in self.m["flows"].values() if f.get("cond")}

        def lanes(ls):
            if ls:
                self.ids.add(ls["id"])
                for k, l in ls["lanes"].items():
                    self.ids.add(k)
                    lanes(l["child"])
        for p in self.m["processes"].values():
            lanes(p["laneSet"])
        if self.m["collaboration"]:
            c = self.m["collaboration"]
            self.ids |= {c["id"]} | set(c["participants"]) | set(c["messageFlows"])
        return self

    def fresh(self, i, what):
        if not isinstance(i, str) or not i:
            fail("id of new %s is %r" % (what, i))
        if i in self.ids:
            fail("id %r of new %s is already used in the diagram" % (i, what))
        self.ids.add(i)
        return i

    def scope(self, s):
        return s[1:] if isinstance(s, str) else self.scopes[s]

    def nid(self, n):
        return n[1:] if isinstance(n, str) else self.nodes[n]

    def call(self, method, order, args, kw, positional):
        f = getattr(self.d, method)
        if positional:
            last = max([order.index(k) for k in kw] or [-1])
            if all(k in kw for k in order[:last + 1]):
                return f(*(args + [kw[k] for k in order[:last + 1]]))
        return f(*args, **kw)

    def do(self, op, positional=False):
        k = op[0]
        kw = op[-1] if isinstance(op[-1], dict) else {}
        if k == "new":
            self.clear()
            if len(op) > 1:
                self.d.create_new_diagram_graph(op[1]) if positional else \
                    self.d.create_new_diagram_graph(diagram_name=op[1])
            else:
                self.d.create_new_diagram_graph()
            self.m["diagram"] = {"id": self.fresh(self.d.diagram_attributes.get("id"), "diagram"),
                                 "name": op[1] if len(op) > 1 else ""}
        elif k == "proc":
            pid = self.call("add_process_to_diagram", PROC_ORDER, [], kw, positional)
            self.fresh(pid, "process")
            self.m["processes"][pid] = {
                "name": kw.get("process_name", ""), "isClosed": tf(kw.get("process_is_closed")),
                "isExecutable": tf(kw.get("process_is_executable")), "processType": kw.get("process_type", "None"),
                "laneSet": None}
            plane = self.d.plane_attributes.get("id")
            if plane != self.m["plane"]["id"]:
                self.fresh(plane, "plane")
            self.m["plane"] = {"id": plane, "bpmnElement": pid}
            self.scopes.append(pid)
        elif k == "flow":
            pid, s, t = self.scope(op[1]), self.nid(op[2]), self.nid(op[3])
            fid, ref = self.call("add_sequence_flow_to_diagram", ["sequence_flow_name"], [pid, s, t], kw, positional)
            self.fresh(fid, "flow")
            name = kw.get("sequence_flow_name", "")
            a, b = self.m["nodes"][s], self.m["nodes"][t]
            self.m["flows"][fid] = {"source": s, "target": t, "name": name, "process": pid,
                                    "waypoints": [(a["x"], a["y"]), (b["x"], b["y"])]}
            self.m["sequence_flows"][fid] = {"name": name, "sourceRef": s, "targetRef": t}
            a["outgoing"].append(fid)
            b["incoming"].append(fid)
            self.flows.append(fid)
            self.refs[fid] = ref
        else:
            self.node(k, self.scope(op[1]), kw, positional)

    def node(self, k, pid, kw, positional):
        if k.startswith("gw:"):
            typ = k[3:]
            order = ["gateway_name", "gateway_direction", "node_id"]
            nid, ref = self.call("add_gateway_to_diagram", order, [pid, typ], kw, positional)
            name = kw.get("gateway_name", "")
        elif k.startswith("fn:"):                # the generic helper: every kind of task
            typ = k[3:]
            name = kw.get("name", "")
            args = [pid, typ, name] + ([kw["node_id"]] if "node_id" in kw else [])
            nid, ref = (self.d.add_flow_node_to_diagram(*args) if positional else
                        self.d.add_flow_node_to_diagram(process_id=pid, node_type=typ, name=name, node_id=kw.get("node_id")))
        else:
            typ = TYPE[k]
            if k == "sub" and "subprocess_name" not in kw:
                kw = dict(kw, subprocess_name="")
            nid, ref = self.call(METHOD[k], ORDER[k], [pid], kw, positional)
            name = kw.get(NAME[k], "")
        if kw.get("node_id") is not None and nid != kw["node_id"]:
            fail("node got id %r instead of %r" % (nid, kw["node_id"]))
        self.fresh(nid, typ)
        r = dict(GEO, type=typ, process=pid, name=name, incoming=[], outgoing=[])
        if typ.endswith("Gateway"):
            r["gatewayDirection"] = kw.get("gateway_direction", "Unspecified")
            if kw.get("default") is not None:
                r["default"] = kw["default"]
            if typ == "eventBasedGateway":
                r.update(instantiate="false", eventGatewayType="Exclusive")
        elif k == "sub":
            r.update(isExpanded=tf(kw.get("is_expanded")), triggeredByEvent=tf(kw.get("triggered_by_event")))
            self.scopes.append(nid)
        elif k == "start":
            r.update(parallelMultiple=tf(kw.get("parallel_multiple")), isInterrupting=tf(kw.get("is_interrupting", True)))
        if k in ("start", "end"):
            r["defs"] = []
            want = kw.get(k + "_event_definition")
            if want is not None:
                defs = [x for x in (ref.get("event_definitions") or [])]
                if len(defs) != 1:
                    fail("%s with definition %r has definitions %r" % (typ, want, defs))
                r["defs"] = [(want, self.fresh(defs[0].get("id"), "event definition"))]
        self.m["nodes"][nid] = r
        self.nodes.append(nid)
        self.refs[nid] = ref

    def compare(self, what="diagram after the construction calls"):
        same(what, snapshot(self.d), self.m)


def play(diagram, ops, positional=False, each=None, adopt=False):
    """each: called with the run after every operation."""
    r = Run(diagram)
    if adopt:
        r.adopt()
    for op in ops:
        r.do(op, positional)
        if each:
            each(r)
    return r


DECORATIONS = ("same names", "names are ids", "prefix ids", "ids down", "numbers")


def decorate(ops, scheme):
    """The same history with names and explicit ids chosen to be confused with each other."""
    out, n = [], 0
    total = len(ops) + 1
    for op in ops:
        k = op[0]
        kw = dict(op[-1]) if isinstance(op[-1], dict) else {}
        head = [x for x in op if not isinstance(x, dict)]
        n += 1
        i = {"prefix ids": "z" * n, "ids down": "z" * (total - n), "numbers": "n%d" % n, "names are ids": "id%d" % n}.get(scheme)
        name = {"same names": "same", "names are ids": "id%d" % (n + 1), "numbers": "n%d" % (n + 1)}.get(scheme)
        if k == "new":
            out.append(head[:1] + ([name] if name else []))
            continue
        key = {"proc": "process_name", "flow": "sequence_flow_name"}.get(k) or {"gw:": "gateway_name", "fn:": "name"}.get(
            k[:3]) or NAME.get(k)
        if name:
            kw[key] = name
        if i and k not in ("proc", "flow"):
            kw["node_id"] = i
        out.append(head + [kw])
    return out


# ---------------------------------------------------------------- enumeration
def sequences(depth, kinds=("task", "sub", "xor"), maxscopes=3, renew=True):
    """All op sequences [new, proc] + up to depth further operations (flows: every ordered pair at most once)."""
    def rec(ops, scopes, nodes, used, left):
        yield ops
        if not left:
            return
        if scopes < maxscopes:
            for x in rec(ops + [["proc"]], scopes + 1, nodes, used, left - 1):
                yield x
        if renew and nodes:
            for x in rec(ops + [["new"], ["proc"]], 1, 0, frozenset(), left - 1):
                yield x
        for s in range(scopes):
            for k in kinds:
                if k == "sub" and scopes >= maxscopes:
                    continue
                for x in rec(ops + [[k, s]], scopes + (k == "sub"), nodes + 1, used, left - 1):
                    yield x
        for a in range(nodes):
            for b in range(nodes):
                if (a, b) not in used:
                    for x in rec(ops + [["flow", 0, a, b]], scopes, nodes, used | {(a, b)}, left - 1):
                        yield x
    return rec([["new"], ["proc"]], 1, 0, frozenset(), depth)


B = (None, True, False)
DIRS = (None, "Unspecified", "Converging", "Diverging", "Mixed")


def kwargs(spec):
    for combo in itertools.product(*[v for _, v in spec]):
        yield {k: v for (k, _), v in zip(spec, combo) if v is not None}


def arguments():
    """Every construction call with every combination of its arguments."""
    for kw in kwargs([("process_name", (None, "", "P")), ("process_is_closed", B), ("process_is_executable", B),
                      ("process_type", (None, "None", "Public", "Private"))]):
        yield [["new"], ["proc", kw], ["task", 0]]
    for name in ("", "D"):
        yield [["new", name], ["proc"]]
    nid = ("node_id", (None, "my_id"))
    specs = {"task": [("task_name", (None, "", "N")), nid],
             "sub": [("subprocess_name", ("", "N")), ("is_expanded", B), ("triggered_by_event", B), nid],
             "start": [("start_event_name", (None, "", "N")), ("start_event_definition", (
                 None, "message", "timer", "conditional", "signal", "escalation")), ("parallel_multiple", B),
                       ("is_interrupting", B), nid],
             "end": [("end_event_name", (None, "", "N")), ("end_event_definition", (
                 None, "message", "terminate", "escalation", "compensate", "signal", "error")), nid],
             "xor": [("gateway_name", (None, "", "N")), ("gateway_direction", DIRS), ("default", (None, "f")), nid],
             "or": [("gateway_name", (None, "", "N")), ("gateway_direction", DIRS), ("default", (None, "f")), nid],
             "and": [("gateway_name", (None, "", "N")), ("gateway_direction", DIRS), nid]}
    for t in ("exclusiveGateway", "inclusiveGateway", "parallelGateway", "eventBasedGateway", "complexGateway"):
        specs["gw:" + t] = [("gateway_name", (None, "", "N")), ("gateway_direction", DIRS), nid]
    for t in ("task", "userTask", "serviceTask", "manualTask"):
        specs["fn:" + t] = [("name", ("", "N")), nid]
    for k, spec in specs.items():
        for kw in kwargs(spec):
            for s in (0, 1):
                yield [["new"], ["proc"], ["proc"], ["task", 0, {"node_id": "first"}], [k, s, kw], ["flow", s, 0, 1],
                       ["flow", s, 1, 0]]
        for a in list(kwargs(spec))[:6]:         # the same call twice, the second one must not disturb the first
            for b in list(kwargs(spec))[-6:]:
                b = dict(b, node_id="other")
                yield [["new"], ["proc"], [k, 0, a], [k, 0, b], ["flow", 0, 0, 1]]
    for kw in kwargs([("sequence_flow_name", (None, "", "N"))]):
        for s in (0, 1):
            yield [["new"], ["proc"], ["sub", 0], ["task", 1], ["task", 1], ["flow", s, 1, 2, kw]]


def graphs(n, loops=True, orders=2):
    """Every digraph on n tasks, flows added in several orders."""
    pairs = [(i, j) for i in range(n) for j in range(n) if loops or i != j]
    kinds = ("task", "xor", "and", "end")
    for bits in range(1 << len(pairs)):
        chosen = [p for k, p in enumerate(pairs) if bits >> k & 1]
        for o in range(orders if len(chosen) > 1 else 1):
            seq = chosen if o == 0 else chosen[::-1] if o == 1 else chosen[1::2] + chosen[0::2]
            yield [["new"], ["proc"]] + [[kinds[i % 4], 0] for i in range(n)] + [["flow", 0, a, b] for a, b in seq]


def texts(TEXTS, IDS):
    for t in TEXTS:
        yield [["new", t], ["proc", {"process_name": t}], ["task", 0, {"task_name": t}],
               ["sub", 0, {"subprocess_name": t}], ["start", 1, {"start_event_name": t}],
               ["end", 1, {"end_event_name": t}], ["xor", 0, {"gateway_name": t}], ["or", 0, {"gateway_name": t}],
               ["and", 0, {"gateway_name": t}], ["gw:complexGateway", 0, {"gateway_name": t}],
               ["flow", 1, 2, 3, {"sequence_flow_name": t}], ["flow", 0, 0, 1, {"sequence_flow_name": t}]]
    for i in IDS:
        for k in ("task", "sub", "start", "end", "xor", "or", "and", "gw:complexGateway"):
            yield [["new"], ["proc"], [k, 0, {"node_id": i}], ["task", 0], ["flow", 0, 0, 1], ["flow", 0, 1, 0]]


def sizes(top):
    for n in top:
        yield [["new"], ["proc"]] + [["task", 0] for _ in range(n)]
        if n <= 300:
            yield [["new"], ["proc"], ["xor", 0]] + [["task", 0] for _ in range(n)] + \
                  [["flow", 0, 0, i + 1] for i in range(n)]
            yield [["new"], ["proc"], ["and", 0]] + [["task", 0] for _ in range(n)] + \
                  [["flow", 0, i + 1, 0] for i in range(n)]
            yield [["new"]] + [["proc"] for _ in range(n)] + [["task", i] for i in range(n)]
        if n <= 40:
            yield [["new"], ["proc"]] + [x for i in range(n) for x in (["sub", i], ["task", i])]
            yield [["new"], ["proc"], ["start", 0]] + [["task", 0] for _ in range(n)] + \
                  [["flow", 0, i, i + 1] for i in range(n)]


def decode(case):
    """Op lists of big cases are described, not written out."""
    if "size" in case:
        return list(sizes([case["size"]]))[case["k"]]
    return case["ops"]


def extensions(scopes, nodes, pairs, deep=False):
    """Histories that extend a diagram with the given numbers of scopes and nodes; pairs: those already connected."""
    kinds = ("task", "sub", "start", "end", "xor", "or", "and", "gw:complexGateway", "gw:eventBasedGateway", "fn:userTask")
    new = nodes
    for s in range(scopes):
        for k in kinds:
            yield [[k, s]]
        for a in range(nodes):
            yield [["task", s], ["flow", s, a, new]]
            yield [["xor", s], ["flow", s, new, a, {"sequence_flow_name": "N"}]]
        yield [["sub", s], ["task", scopes], ["task", scopes], ["flow", scopes, new + 1, new + 2]]
        yield [["start", s, {"start_event_definition": "message"}], ["end", s, {"end_event_definition": "terminate"}],
               ["flow", s, new, new + 1]]
    free = [(a, b) for a in range(nodes) for b in range(nodes) if (a, b) not in pairs]
    for a, b in free:
        yield [["flow", 0, a, b]]
    if deep:
        for i, (a, b) in enumerate(free):
            c, d = free[(i + 1) % len(free)]
            if (c, d) != (a, b):
                yield [["flow", 0, a, b, {"sequence_flow_name": "N"}], ["task", i % scopes], ["flow", 0, c, d],
                       ["flow", 0, new, a]]


def extension_cases(tier):
    """Imported diagrams (XML, CSV) extended by construction calls."""
    from mc import docs, model, tables
    bases = [{"f": "alias", "b": b, "l": docs.LISTED[0]} for b in docs.ALIAS_BASES] + [
        {"csv": {"s": s, "c": 1, "one": True, "g": [], "kinds": "TP"}} for s in (
            ("T", "E"), ("T", ("S", ("T",), ("T",)), "T", "E"), ("T", ("S", ("T", "E"), ("E",))))]
    for b in bases:
        if "f" in b:
            exp = model.expected(docs.build(b))
            ids = [k for k, n in exp["nodes"].items() if n["type"] != "participant"]
            subs = [k for k, n in exp["nodes"].items() if n["type"] == "subProcess"]
            scopes = len(exp["processes"]) + len(subs)
            pos = {k: i for i, k in enumerate(ids)}
            pairs = {(pos.get(f["source"]), pos.get(f["target"])) for f in exp["flows"].values()}
            drawn = {pos[k] for k in ids if "x" in exp["nodes"][k]}
            if tier == "quick":
                drawn &= set(range(0, len(ids), 2)) | {len(ids) - 1}
            count = len(ids)
        else:
            from mc.checks import c11
            ids, fl = tables.reference(c11.build(b["csv"]))
            count, scopes = len(ids), 1 + sum(t == "subProcess" for t, _ in ids.values())
            pairs, drawn = None, set(range(count))
        for ops in extensions(scopes, count, pairs or (), deep=tier == "thorough"):
            used = [x for op in ops if op[0] == "flow" for x in op[2:4] if x < count]
            if all(u in drawn for u in used):
                if pairs is None and ops[0][0] == "flow":
                    continue
                yield dict(b, then=ops)


def size_cases(top):
    for n in top:
        for k in range(len(list(sizes([n])))):
            yield {"size": n, "k": k}
