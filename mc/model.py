# coding=utf-8
"""Reference model of a BPMN document, independent of the code under test.

Doc (plain dictionaries, see new_doc) -> serialize() -> XML -> [code under test] -> snapshot()
Doc -> expected() -> the snapshot the code under test must produce
XML -> parse() (own reader on top of expat) -> Doc
"""
import xml.parsers.expat as expat

from mc.core import fail

TASKS = ("task", "userTask", "serviceTask", "manualTask")
GATEWAYS = ("exclusiveGateway", "inclusiveGateway", "parallelGateway", "eventBasedGateway", "complexGateway")
EVENTS = ("startEvent", "endEvent", "intermediateCatchEvent", "intermediateThrowEvent", "boundaryEvent")
NODE_TYPES = TASKS + ("subProcess", "dataObject") + GATEWAYS + EVENTS
DEFS = {
    "startEvent": ("message", "timer", "signal", "conditional", "escalation"),
    "intermediateCatchEvent": ("message", "timer", "signal", "conditional", "escalation"),
    "endEvent": ("message", "signal", "escalation", "error", "compensate", "terminate"),
    "intermediateThrowEvent": ("message", "signal", "escalation", "compensate"),
    "boundaryEvent": ("message", "timer", "signal", "conditional", "escalation", "error"),
}
# attributes of each node type besides id and name: attribute -> value when absent
_gw = {"gatewayDirection": "Unspecified"}
ATTRS = {
    "task": {"default": None}, "userTask": {"default": None}, "serviceTask": {"default": None},
    "manualTask": {"default": None}, "subProcess": {"default": None, "triggeredByEvent": "false"},
    "dataObject": {"isCollection": "false"},
    "exclusiveGateway": dict(_gw, default=None), "inclusiveGateway": dict(_gw, default=None),
    "complexGateway": dict(_gw, default=None), "parallelGateway": dict(_gw),
    "eventBasedGateway": dict(_gw, instantiate="false", eventGatewayType="Exclusive"),
    "startEvent": {"parallelMultiple": "false", "isInterrupting": "true"},
    "endEvent": {}, "intermediateThrowEvent": {},
    "intermediateCatchEvent": {"parallelMultiple": "false"},
    "boundaryEvent": {"parallelMultiple": "false", "cancelActivity": "true", "attachedToRef": ""},
}
PROCESS_ATTRS = {"name": "", "isClosed": "false", "isExecutable": "false", "processType": "None"}


# ---------------------------------------------------------------- documents
def new_doc(**kw):
    d = {"diagram": {"id": "diag", "name": "Diagram"}, "plane": {"id": "plane", "bpmnElement": "p1"},
         "collaboration": None, "processes": []}
    d.update(kw)
    return d


def process(pid, nodes=(), flows=(), lanes=None, **attrs):
    return {"id": pid, "attrs": attrs, "nodes": list(nodes), "flows": list(flows), "laneSet": lanes}


def node(typ, nid, name=None, incoming=(), outgoing=(), defs=(), shape=True, nodes=(), flows=(), **attrs):
    if name is not None:
        attrs["name"] = name
    if shape is True:
        shape = {"x": "10", "y": "20", "width": "100", "height": "80"}
    return {"type": typ, "id": nid, "attrs": attrs, "incoming": list(incoming), "outgoing": list(outgoing),
            "defs": [tuple(x) for x in defs], "shape": shape, "nodes": list(nodes), "flows": list(flows)}


def flow(fid, src, tgt, name=None, cond=None, waypoints=(("1", "2"), ("3", "4"))):
    attrs = {} if name is None else {"name": name}
    return {"id": fid, "attrs": attrs, "sourceRef": src, "targetRef": tgt, "cond": cond,
            "waypoints": None if waypoints is None else [tuple(w) for w in waypoints]}


def lane_set(lid, lanes=()):
    return {"id": lid, "lanes": list(lanes)}


def lane(lid, name=None, refs=(), child=None, shape=True):
    if shape is True:
        shape = {"x": "0", "y": "0", "width": "500", "height": "90", "isHorizontal": "true"}
    return {"id": lid, "name": name, "refs": list(refs), "child": child, "shape": shape}


def participant(pid, name=None, ref=None, shape=True):
    if shape is True:
        shape = {"x": "5", "y": "6", "width": "600", "height": "200", "isHorizontal": "true"}
    return {"id": pid, "name": name, "processRef": ref, "shape": shape}


def collaboration(cid, participants=(), flows=()):
    return {"id": cid, "participants": list(participants), "messageFlows": list(flows)}


def connect(scope):
    """List the flows of a scope under their end points (as editors do)."""
    by_id = {n["id"]: n for n in scope["nodes"]}
    for f in scope["flows"]:
        if f["sourceRef"] in by_id:
            by_id[f["sourceRef"]]["outgoing"].append(f["id"])
        if f["targetRef"] in by_id:
            by_id[f["targetRef"]]["incoming"].append(f["id"])
    return scope


def walk_nodes(scope):
    for n in scope["nodes"]:
        yield n, scope
        for x in walk_nodes(n):
            yield x


def walk_flows(scope):
    for f in scope["flows"]:
        yield f, scope
    for n in scope["nodes"]:
        for x in walk_flows(n):
            yield x


def walk_lanes(ls):
    if ls:
        for l in ls["lanes"]:
            yield l
            for x in walk_lanes(l["child"]):
                yield x


# ---------------------------------------------------------------- expected representation
def num(s):
    """Coordinates are compared as numbers when they are numbers."""
    try:
        return float(s)
    except (TypeError, ValueError):
        return s


def _shape(s, expanded=False, horizontal=False):
    if s is None:
        return {}
    out = {k: num(s.get(k, "")) for k in ("x", "y", "width", "height")}
    if horizontal:
        out["isHorizontal"] = s.get("isHorizontal") or ""
    if expanded:
        out["isExpanded"] = s.get("isExpanded", "false")
    return out


def _lanes(ls):
    if ls is None:
        return None
    return {"id": ls["id"] or "", "lanes": {
        l["id"]: dict(_shape(l["shape"], horizontal=True), name=l["name"] or "", refs=list(l["refs"]),
                      child=_lanes(l["child"])) for l in ls["lanes"]}}


def expected(doc):
    """The reference import."""
    dg, pl = doc["diagram"] or {}, doc["plane"] or {}
    out = {"diagram": {"id": dg.get("id") or "", "name": dg.get("name") or ""},
           "plane": {"id": pl.get("id") or "", "bpmnElement": pl.get("bpmnElement")},
           "processes": {}, "nodes": {}, "flows": {}, "sequence_flows": {}, "collaboration": None}
    nodes, flows = out["nodes"], out["flows"]
    for p in doc["processes"]:
        rec = {a: p["attrs"].get(a, d) for a, d in PROCESS_ATTRS.items()}
        rec["laneSet"] = _lanes(p["laneSet"])
        out["processes"][p["id"]] = rec
        for n, scope in walk_nodes(p):
            r = {"type": n["type"], "process": scope["id"], "name": n["attrs"].get("name", "")}
            for a, d in ATTRS[n["type"]].items():
                v = n["attrs"].get(a, d)
                if v is not None:
                    r[a] = v
            if n["type"] in DEFS:
                r["defs"] = [(t, i or "") for t, i in n["defs"]]
            r["incoming"], r["outgoing"] = list(n["incoming"]), list(n["outgoing"])
            r.update(_shape(n["shape"], expanded=n["type"] == "subProcess"))
            nodes[n["id"]] = r
    for p in doc["processes"]:
        for f, scope in walk_flows(p):
            _expect_flow(nodes, flows, f, scope["id"])
            out["sequence_flows"][f["id"]] = {"name": f["attrs"].get("name", ""), "sourceRef": f["sourceRef"],
                                              "targetRef": f["targetRef"]}
    c = doc["collaboration"]
    if c is not None:
        col = out["collaboration"] = {"id": c["id"], "participants": {}, "messageFlows": {}}
        ends = set(f[k] for f in c["messageFlows"] for k in ("sourceRef", "targetRef"))
        for p in c["participants"]:
            col["participants"][p["id"]] = dict(_shape(p["shape"], horizontal=True), name=p["name"] or "",
                                                processRef=p["processRef"] or "")
            if not p["processRef"] or p["id"] in ends:
                nodes[p["id"]] = dict(_shape(p["shape"]), type="participant", process=p["id"], name=p["name"] or "",
                                      incoming=[], outgoing=[])
        for f in c["messageFlows"]:
            col["messageFlows"][f["id"]] = {"name": f["attrs"].get("name", ""), "sourceRef": f["sourceRef"],
                                            "targetRef": f["targetRef"]}
            _expect_flow(nodes, flows, f, None)
    return out


def _expect_flow(nodes, flows, f, pid):
    r = {"source": f["sourceRef"], "target": f["targetRef"], "name": f["attrs"].get("name", ""), "process": pid}
    if f["cond"] is not None:
        r["cond"] = (f["cond"][0] or "", f["cond"][1])
    if f["waypoints"] is not None:
        r["waypoints"] = [(num(x), num(y)) for x, y in f["waypoints"]]
    flows[f["id"]] = r
    for nid, key in ((f["sourceRef"], "outgoing"), (f["targetRef"], "incoming")):
        if f["id"] not in nodes[nid][key]:
            nodes[nid][key].append(f["id"])


# ---------------------------------------------------------------- what the code under test holds
def snapshot_shape(a):
    return {k: num(a[k]) for k in ("x", "y", "width", "height") if a.get(k) is not None}


def _snap_lanes(ls):
    if not ls:
        return None
    out = {"id": ls.get("id") or "", "lanes": {}}
    for lid, l in ls.get("lanes", {}).items():
        r = dict(snapshot_shape(l), name=l.get("name") or "", refs=list(l.get("flowNodeRefs") or []),
                 child=_snap_lanes(l.get("childLaneSet")))
        if l.get("isHorizontal") is not None:
            r["isHorizontal"] = l["isHorizontal"]
        if l.get("id") != lid:
            fail("lane listed under a wrong id", lid, l)
        out["lanes"][lid] = r
    return out


ALL_ATTRS = sorted(set(a for v in ATTRS.values() for a in v))


def snapshot(d, plain=False):
    """Everything a user can see of a diagram, through its public interface."""
    out = {"diagram": {"id": d.diagram_attributes.get("id") or "", "name": d.diagram_attributes.get("name") or ""},
           "plane": {"id": d.plane_attributes.get("id") or "", "bpmnElement": d.plane_attributes.get("bpmnElement")},
           "processes": {}, "nodes": {}, "flows": {}, "sequence_flows": {}, "collaboration": None}
    for pid, p in d.process_elements.items():
        rec = {a: p.get(a) for a in PROCESS_ATTRS}
        rec["laneSet"] = _snap_lanes(p.get("laneSet"))
        if p.get("id") not in (None, pid):
            fail("process listed under a wrong id", pid, p.get("id"))
        out["processes"][pid] = rec
    for item in d.get_nodes():
        nid, a = item
        if nid in out["nodes"]:
            fail("node listed twice", nid)
        if a.get("id") != nid and (a.get("type") != "participant" or a.get("id")):
            fail("node listed under a wrong id", nid, a.get("id"))
        r = {"type": a.get("type"), "process": a.get("process"), "name": a.get("node_name")}
        for k in ALL_ATTRS:
            if a.get(k) is not None:
                r[k] = a[k]
        if r["type"] in DEFS or a.get("event_definitions"):
            r["defs"] = [(x.get("definition_type"), x.get("id") or "") for x in a.get("event_definitions") or []]
            r["defs"] = [((t or "").replace("EventDefinition", ""), i) for t, i in r["defs"]]
        r["incoming"], r["outgoing"] = list(a.get("incoming") or []), list(a.get("outgoing") or [])
        r.update(snapshot_shape(a))
        if a.get("isExpanded") is not None:
            r["isExpanded"] = a["isExpanded"]
        out["nodes"][nid] = r
    for u, v, a in d.get_flows():
        fid = a.get("id")
        if fid in out["flows"]:
            fail("flow listed twice", fid)
        if a.get("sourceRef") != u or a.get("targetRef") != v:
            fail("flow listed with end points %r -> %r but its references say %r -> %r" % (
                u, v, a.get("sourceRef"), a.get("targetRef")))
        r = {"source": u, "target": v, "name": a.get("name"), "process": a.get("process")}
        c = a.get("conditionExpression")
        if c is not None:
            r["cond"] = (c.get("id") or "", c.get("conditionExpression"))
        if a.get("waypoints") is not None:
            r["waypoints"] = [(num(w[0]), num(w[1])) for w in a["waypoints"]]
        out["flows"][fid] = r
    for fid, f in d.sequence_flows.items():
        out["sequence_flows"][fid] = {k: f.get(k) for k in ("name", "sourceRef", "targetRef")}
    c = d.collaboration
    if c:
        col = out["collaboration"] = {"id": c.get("id"), "participants": {}, "messageFlows": {}}
        for pid, p in c.get("participants", {}).items():
            r = dict(snapshot_shape(p), name=p.get("name") or "", processRef=p.get("processRef") or "")
            if p.get("isHorizontal") is not None:
                r["isHorizontal"] = p["isHorizontal"]
            col["participants"][pid] = r
        for fid, f in c.get("messageFlows", {}).items():
            col["messageFlows"][fid] = {k: f.get(k) for k in ("name", "sourceRef", "targetRef")}
    return out


def after_round_trip(s):
    """The documented effect of export: an unnamed flow with a condition is labelled with the condition."""
    import copy
    s = copy.deepcopy(s)
    for fid, f in s["flows"].items():
        if f["name"] == "" and f.get("cond") is not None:
            f["name"] = f["cond"][1]
    for fid, f in s["sequence_flows"].items():
        if fid in s["flows"]:
            f["name"] = s["flows"][fid]["name"]
    return s


# ---------------------------------------------------------------- serializer
def esc(s, quote='"'):
    s = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
    for ch, ref in (("\t", "&#9;"), ("\n", "&#10;"), ("\r", "&#13;")):
        s = s.replace(ch, ref)
    if quote:
        s = s.replace(quote, "&quot;" if quote == '"' else "&apos;")
    return s


class El(object):
    """Element of the XML tree to be written: ns is 'b' (BPMN), 'di', 'dc', 'bdi' or '' (foreign)."""

    def __init__(self, ns, tag, attrs=(), kids=(), text=None):
        self.ns, self.tag, self.attrs, self.kids, self.text = ns, tag, list(attrs), list(kids), text


def tree(doc):
    """The element tree of a document in the order editors use."""
    def shape(sid, s):
        at = [("id", sid + "_shape"), ("bpmnElement", sid)]
        for k in ("isHorizontal", "isExpanded"):
            if s.get(k) is not None:
                at.append((k, s[k]))
        return El("bdi", "BPMNShape", at, [El("dc", "Bounds", [(k, s[k]) for k in ("x", "y", "width", "height")
                                                              if k in s])])

    def edge(fid, wps):
        return El("bdi", "BPMNEdge", [("id", fid + "_edge"), ("bpmnElement", fid)],
                  [El("di", "waypoint", [("x", x), ("y", y)]) for x, y in wps])

    shapes, edges = [], []

    def opt_id(i):
        return [] if i is None else [("id", i)]

    def node_el(n):
        e = El("b", n["type"], [("id", n["id"])] + sorted(n["attrs"].items()))
        e.kids += [El("b", "incoming", text=i) for i in n["incoming"]]
        e.kids += [El("b", "outgoing", text=i) for i in n["outgoing"]]
        e.kids += [El("b", t + "EventDefinition", [] if i is None else [("id", i)]) for t, i in n["defs"]]
        if n["shape"] is not None:
            shapes.append(shape(n["id"], n["shape"]))
        for ls in n.get("ignored", ()):         # a lane set of a sub-process
            e.kids.append(lane_els(ls, "laneSet"))
        scope_els(n, e)
        return e

    def scope_els(scope, e):
        for n in scope["nodes"]:
            e.kids.append(node_el(n))
        for f in scope["flows"]:
            e.kids.append(flow_el(f, "sequenceFlow"))

    def flow_el(f, tag):
        fe = El("b", tag, [("id", f["id"])] + sorted(f["attrs"].items()) + [
            ("sourceRef", f["sourceRef"]), ("targetRef", f["targetRef"])])
        if f["cond"] is not None:
            cid, text = f["cond"]
            fe.kids.append(El("b", "conditionExpression", [] if cid is None else [("id", cid)], text=text))
        if f["waypoints"] is not None:
            edges.append(edge(f["id"], f["waypoints"]))
        return fe

    def lane_els(ls, tag):
        e = El("b", tag, [] if ls["id"] is None else [("id", ls["id"])])
        for l in ls["lanes"]:
            le = El("b", "lane", [("id", l["id"])] + ([] if l["name"] is None else [("name", l["name"])]))
            le.kids += [El("b", "flowNodeRef", text=r) for r in l["refs"]]
            if l["child"] is not None:
                le.kids.append(lane_els(l["child"], "childLaneSet"))
            if l["shape"] is not None:
                shapes.append(shape(l["id"], l["shape"]))
            e.kids.append(le)
        return e

    root = El("b", "definitions", [("id", "definitions"), ("targetNamespace", "http://example.org/bpmn")])
    c = doc["collaboration"]
    if c is not None:
        ce = El("b", "collaboration", [("id", c["id"])])
        for p in c["participants"]:
            at = [("id", p["id"])]
            if p["name"] is not None:
                at.append(("name", p["name"]))
            if p["processRef"] is not None:
                at.append(("processRef", p["processRef"]))
            ce.kids.append(El("b", "participant", at))
            if p["shape"] is not None:
                shapes.append(shape(p["id"], p["shape"]))
        for f in c["messageFlows"]:
            ce.kids.append(flow_el(f, "messageFlow"))
        root.kids.append(ce)
    for p in doc["processes"]:
        pe = El("b", "process", [("id", p["id"])] + sorted(p["attrs"].items()))
        if p["laneSet"] is not None:
            pe.kids.append(lane_els(p["laneSet"], "laneSet"))
        scope_els(p, pe)
        root.kids.append(pe)
    d = doc["diagram"]
    de = El("bdi", "BPMNDiagram", opt_id(d["id"]) + ([("name", d["name"])] if d.get("name") is not None else []))
    de.kids.append(El("bdi", "BPMNPlane", opt_id(doc["plane"]["id"]) + [("bpmnElement", doc["plane"]["bpmnElement"])],
                      shapes + edges))
    root.kids.append(de)
    return root


NS = {"b": "http://www.omg.org/spec/BPMN/20100524/MODEL", "bdi": "http://www.omg.org/spec/BPMN/20100524/DI",
      "dc": "http://www.omg.org/spec/DD/20100524/DC", "di": "http://www.omg.org/spec/DD/20100524/DI",
      "x": "http://example.org/ext"}
DEFAULT_STYLE = {"prefix": {"b": "", "bdi": "bpmndi", "dc": "omgdc", "di": "omgdi", "x": "ext"}, "indent": "  ",
                 "quote": '"', "encoding": "utf-8", "declaration": True, "charref": False}


def serialize(doc_or_tree, style=None):
    st = dict(DEFAULT_STYLE)
    st.update(style or {})
    root = doc_or_tree if isinstance(doc_or_tree, El) else tree(doc_or_tree)
    q = st["quote"]
    out = []
    if st["declaration"]:
        out.append("<?xml version=%s1.0%s encoding=%s%s%s?>\n" % (q, q, q, st["encoding"], q))
    out.extend(st.get("prolog", ()))

    mode = st.get("declare")        # where namespaces are declared: None (all on the root), late, default, one, two
    count = [0]

    def prefix(e):
        if mode == "default":
            return ""
        if mode == "one":
            return "p"
        if mode == "two":
            count[0] += 1
            return "ab"[count[0] % 2] + e.ns
        return st["prefix"].get(e.ns, "")

    def text(s, attr=False):
        r = esc(s, q if attr else None)
        if st["charref"]:
            r = "".join(c if c in "&;#<>" or c.isalnum() and ord(c) < 128 and not c.isupper() else
                        ("&#x%x;" % ord(c)) for c in s) if not any(c in "&<>" for c in s) else r
        return r

    def emit(e, level, scope={}):
        if isinstance(e, str):      # raw markup (comments, processing instructions)
            out.append(e)
            return
        pad = "\n" + st["indent"] * level if st["indent"] is not None else ""
        at = list(e.attrs)
        p = prefix(e)
        tag = (p + ":" if p else "") + e.tag
        if mode:
            if level == 0:
                at.insert(0, ("xmlns:ext", NS["x"]))
            if scope.get(p) != NS[e.ns]:
                scope = dict(scope, **{p: NS[e.ns]})
                at.insert(0, ("xmlns:" + p if p else "xmlns", NS[e.ns]))
        elif level == 0:
            decl = [("xmlns:" + p if p else "xmlns", NS[k]) for k, p in st["prefix"].items()]
            at = decl + at
        if st.get("reverse_attrs"):
            at.reverse()
        s = "<" + tag + "".join(" %s=%s%s%s" % (k, q, text(v, True) if isinstance(v, str) else "".join(v), q) for k, v in at)
        kids, t = e.kids, e.text
        if not kids and not t:
            out.append(s + ("></%s>" % tag if st.get("no_empty_tags") else "/>"))
            return
        out.append(s + ">")
        if t:
            if isinstance(t, str):
                out.append(text(t))
            else:
                out.extend(t)       # list of raw pieces
        for k in kids:
            out.append(pad + st["indent"] if st["indent"] is not None else "")
            emit(k, level + 1, scope)
        if kids:
            out.append(pad)
        out.append("</%s>" % tag)

    emit(root, 0)
    out.append("\n")
    return "".join(out).encode(st["encoding"], "xmlcharrefreplace")


# ---------------------------------------------------------------- independent reader of exported files
class XNode(object):
    def __init__(self, ns, tag, attrs):
        self.ns, self.tag, self.attrs, self.kids, self.text = ns, tag, attrs, [], ""


def read_xml(data):
    """Namespace-aware parse on top of expat; raises on anything that is not well formed."""
    root = []
    stack = []
    p = expat.ParserCreate(namespace_separator="\n")
    p.buffer_text = True
    p.ordered_attributes = True

    def split(nm):
        return nm.rsplit("\n", 1) if "\n" in nm else ["", nm]

    def start(nm, at):
        ns, tag = split(nm)
        e = XNode(ns, tag, {})
        for i in range(0, len(at), 2):
            e.attrs["}".join(split(at[i])).lstrip("}")] = at[i + 1]
        if stack:
            stack[-1].kids.append(e)
        else:
            root.append(e)
        stack.append(e)

    def chars(t):
        stack[-1].text += t

    p.StartElementHandler = start
    p.EndElementHandler = lambda nm: stack.pop()
    p.CharacterDataHandler = chars
    p.Parse(data, True)
    return root[0]


def parse(data, no_di=False):
    """Exported XML -> Doc, refusing everything that is not part of the exported vocabulary."""
    try:
        root = read_xml(data)
    except expat.ExpatError as e:
        fail("exported file is not well-formed XML: %s" % e)

    def need(cond, msg, *a):
        if not cond:
            fail("exported XML: " + msg % a)

    def check(e, ns, attrs):
        need(e.ns == NS[ns], "element %s is in namespace %r", e.tag, e.ns)
        extra = set(e.attrs) - set(attrs)
        need(not extra, "unexpected attributes %s of %s", sorted(extra), e.tag)

    need(root.tag == "definitions" and root.ns == NS["b"], "root element is %s in %r", root.tag, root.ns)
    need(root.attrs.get("targetNamespace"), "definitions without targetNamespace")
    doc = {"diagram": None, "plane": None, "collaboration": None, "processes": []}
    shapes, edges, ids = {}, {}, set()

    def take_id(i, what):
        need(i is not None, "%s without id", what)
        need(i != "", "empty id of %s", what)
        need(i not in ids, "id %r used twice", i)
        ids.add(i)

    def rd_shape(e):
        check(e, "bdi", ("id", "bpmnElement", "isHorizontal", "isExpanded"))
        take_id(e.attrs.get("id"), "shape")
        b = [k for k in e.kids if k.tag == "Bounds"]
        need(len(b) == 1 and len(e.kids) == 1, "shape of %s does not have exactly one Bounds",
             e.attrs.get("bpmnElement"))
        check(b[0], "dc", ("x", "y", "width", "height"))
        need(set(b[0].attrs) == {"x", "y", "width", "height"}, "incomplete bounds %s", b[0].attrs)
        s = dict(b[0].attrs)
        for k in ("isHorizontal", "isExpanded"):
            if k in e.attrs:
                s[k] = e.attrs[k]
        el = e.attrs.get("bpmnElement")
        need(el not in shapes, "two shapes for %r", el)
        shapes[el] = s

    def rd_edge(e):
        check(e, "bdi", ("id", "bpmnElement"))
        take_id(e.attrs.get("id"), "edge")
        el = e.attrs.get("bpmnElement")
        need(el not in edges, "two edges for %r", el)
        for k in e.kids:
            need(k.tag == "waypoint", "unexpected %s in edge", k.tag)
            check(k, "di", ("x", "y"))
        edges[el] = [(k.attrs["x"], k.attrs["y"]) for k in e.kids]

    def rd_flow(e, extra):
        check(e, "b", ("id", "name", "sourceRef", "targetRef"))
        take_id(e.attrs.get("id"), e.tag)
        cond = None
        for k in e.kids:
            need(k.tag == "conditionExpression" and cond is None and extra, "unexpected %s in %s", k.tag, e.tag)
            check(k, "b", ("id", "{http://www.w3.org/2001/XMLSchema-instance}type"))
            need(not k.kids, "elements inside a condition")
            if "id" in k.attrs:
                take_id(k.attrs["id"], "condition")
            cond = (k.attrs.get("id"), k.text)
        return {"id": e.attrs["id"], "attrs": {k: v for k, v in e.attrs.items() if k == "name"},
                "sourceRef": e.attrs.get("sourceRef"), "targetRef": e.attrs.get("targetRef"), "cond": cond,
                "waypoints": None}

    def rd_lanes(e):
        check(e, "b", ("id",))
        ls = {"id": e.attrs.get("id"), "lanes": []}
        if ls["id"] is not None:
            take_id(ls["id"], "lane set")
        for k in e.kids:
            need(k.tag == "lane", "unexpected %s in %s", k.tag, e.tag)
            check(k, "b", ("id", "name"))
            take_id(k.attrs.get("id"), "lane")
            l = {"id": k.attrs["id"], "name": k.attrs.get("name"), "refs": [], "child": None, "shape": None}
            for c in k.kids:
                check(c, "b", ("id",))
                if c.tag == "flowNodeRef":
                    l["refs"].append(c.text.strip())
                else:
                    need(c.tag == "childLaneSet" and l["child"] is None, "unexpected %s in lane", c.tag)
                    l["child"] = rd_lanes(c)
            ls["lanes"].append(l)
        return ls

    def rd_scope(e, scope, defs):
        for k in e.kids:
            if k.tag == "sequenceFlow":
                scope["flows"].append(rd_flow(k, True))
            elif k.tag in NODE_TYPES:
                check(k, "b", ("id", "name") + tuple(ATTRS[k.tag]))
                take_id(k.attrs.get("id"), k.tag)
                n = {"type": k.tag, "id": k.attrs["id"], "attrs": {a: v for a, v in k.attrs.items() if a != "id"},
                     "incoming": [], "outgoing": [], "defs": [], "shape": None, "nodes": [], "flows": []}
                rd_scope(k, n, DEFS.get(k.tag, ()))
                scope["nodes"].append(n)
            elif k.tag == "laneSet" and "laneSet" in scope:
                need(scope["laneSet"] is None, "two lane sets in one process")
                scope["laneSet"] = rd_lanes(k)
            elif k.tag in ("incoming", "outgoing") and "type" in scope:
                check(k, "b", ())
                scope[k.tag].append(k.text.strip())
            elif k.tag.endswith("EventDefinition") and k.tag[:-len("EventDefinition")] in defs:
                check(k, "b", ("id",))
                if "id" in k.attrs:
                    take_id(k.attrs["id"], k.tag)
                scope["defs"].append((k.tag[:-len("EventDefinition")], k.attrs.get("id")))
            else:
                fail("exported XML: unexpected %s in %s %s" % (k.tag, e.tag, e.attrs.get("id")))
        if e.tag != "subProcess" and e.tag != "process":
            need(not scope["nodes"] and not scope["flows"], "nodes or flows inside %s", e.tag)

    for e in root.kids:
        if e.tag == "process":
            check(e, "b", ("id",) + tuple(PROCESS_ATTRS))
            take_id(e.attrs.get("id"), "process")
            p = {"id": e.attrs["id"], "attrs": {a: v for a, v in e.attrs.items() if a != "id"}, "nodes": [],
                 "flows": [], "laneSet": None}
            rd_scope(e, p, ())
            doc["processes"].append(p)
        elif e.tag == "collaboration":
            need(doc["collaboration"] is None, "two collaborations")
            check(e, "b", ("id",))
            take_id(e.attrs.get("id"), "collaboration")
            c = doc["collaboration"] = {"id": e.attrs["id"], "participants": [], "messageFlows": []}
            for k in e.kids:
                if k.tag == "participant":
                    check(k, "b", ("id", "name", "processRef"))
                    take_id(k.attrs.get("id"), "participant")
                    c["participants"].append({"id": k.attrs["id"], "name": k.attrs.get("name"),
                                              "processRef": k.attrs.get("processRef"), "shape": None})
                else:
                    need(k.tag == "messageFlow", "unexpected %s in collaboration", k.tag)
                    c["messageFlows"].append(rd_flow(k, False))
        elif e.tag == "BPMNDiagram":
            need(doc["diagram"] is None, "two diagrams")
            check(e, "bdi", ("id", "name"))
            if "id" in e.attrs:
                take_id(e.attrs["id"], "diagram")
            doc["diagram"] = dict(e.attrs)
            need(len(e.kids) == 1 and e.kids[0].tag == "BPMNPlane", "diagram without exactly one plane")
            pl = e.kids[0]
            check(pl, "bdi", ("id", "bpmnElement"))
            if "id" in pl.attrs:
                take_id(pl.attrs["id"], "plane")
            doc["plane"] = dict(pl.attrs)
            for k in pl.kids:
                if k.tag == "BPMNShape":
                    rd_shape(k)
                else:
                    need(k.tag == "BPMNEdge", "unexpected %s in plane", k.tag)
                    rd_edge(k)
        else:
            fail("exported XML: unexpected %s in definitions" % e.tag)

    if no_di:
        need(doc["diagram"] is None, "a diagram element in an export without diagram data")
    else:
        need(doc["diagram"] is not None, "no diagram element")
    for p in doc["processes"]:
        for n, _ in walk_nodes(p):
            n["shape"] = shapes.pop(n["id"], None)
        for f, _ in walk_flows(p):
            f["waypoints"] = edges.pop(f["id"], None)
        for l in walk_lanes(p["laneSet"]):
            l["shape"] = shapes.pop(l["id"], None)
    if doc["collaboration"]:
        for x in doc["collaboration"]["participants"]:
            x["shape"] = shapes.pop(x["id"], None)
        for f in doc["collaboration"]["messageFlows"]:
            f["waypoints"] = edges.pop(f["id"], None)
    need(not shapes, "shapes of unknown elements %s", sorted(map(str, shapes)))
    need(not edges, "edges of unknown flows %s", sorted(map(str, edges)))
    doc["ids"] = ids
    return doc


def check_references(doc, snap):
    """Every reference that resolves in the diagram resolves in the exported document."""
    nodes, flows, procs = set(), set(), set()
    for p in doc["processes"]:
        procs.add(p["id"])
        nodes.update(n["id"] for n, _ in walk_nodes(p))
        flows.update(f["id"] for f, _ in walk_flows(p))
    c = doc["collaboration"]
    if c:
        nodes.update(p["id"] for p in c["participants"])
        flows.update(f["id"] for f in c["messageFlows"])
    inn, inf = set(snap["nodes"]), set(snap["flows"])
    if snap["collaboration"]:
        inn |= set(snap["collaboration"]["participants"])
    known = {"n": (nodes, inn), "f": (flows, inf), "p": (procs, set(snap["processes"]))}

    def ref(kind, what, r):
        here, there = known[kind]
        if r in there and r not in here:
            fail("exported XML: %s refers to %r, which the file does not hold" % (what, r))

    for p in doc["processes"]:
        for n, _ in walk_nodes(p):
            for r in n["incoming"] + n["outgoing"]:
                ref("f", n["id"], r)
            ref("f", n["id"], n["attrs"].get("default"))
            ref("n", n["id"], n["attrs"].get("attachedToRef"))
        for f, _ in walk_flows(p):
            ref("n", f["id"], f["sourceRef"])
            ref("n", f["id"], f["targetRef"])
        for l in walk_lanes(p["laneSet"]):
            for r in l["refs"]:
                ref("n", l["id"], r)
    if c:
        for p in c["participants"]:
            ref("p", p["id"], p["processRef"])
        for f in c["messageFlows"]:
            ref("n", f["id"], f["sourceRef"])
            ref("n", f["id"], f["targetRef"])
