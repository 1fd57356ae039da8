# coding=utf-8
"""C04: every surface form of a document loads into the same diagram."""
import itertools

from mc import docs, lib, model
from mc.core import same
from mc.model import El

RULE = ("for documents holding every kind of element: every gap between sibling elements x {comment, processing instruction, "
        "foreign element, extensionElements/documentation}, every element x {foreign attribute, unknown BPMN attribute, "
        "local namespace declaration, attribute rotation}, every text x {CDATA, split CDATA, comment inside, character "
        "references, padding}, every reordering of the kinds of children of every element, product of global styles "
        "(prefixes x indentation x quotes x encoding x attribute order x empty tags); each variant is loaded and compared "
        "with the plain form")
BOUND = {"quick": "single variations of 9 documents (with all, some and no references listed), product of global styles, pairs of text/gap variations of a small document",
         "thorough": "as quick, pairs of variations with every kind of insertion"}
ASSUMPTIONS = ["foreign elements that reuse BPMN element names are inside extensionElements", "condition text keeps its white space, id references do not"]

PREFIXES = [{"b": "", "bdi": "bpmndi", "dc": "omgdc", "di": "omgdi", "x": "ext"},
            {"b": "bpmn", "bdi": "bpmndi", "dc": "dc", "di": "di", "x": "ext"},
            {"b": "bpmn2", "bdi": "", "dc": "dc", "di": "di", "x": "ext"},
            {"b": "semantic", "bdi": "d", "dc": "", "di": "i", "x": "ext"},
            {"b": "task", "bdi": "process", "dc": "Bounds", "di": "", "x": "lane"},
            {"b": "a.b-c_1", "bdi": "x1", "dc": "x2", "di": "x3", "x": ""},
            {"b": u"\u017c", "bdi": "A", "dc": "B", "di": "C", "x": "D"}]
INDENTS = ["  ", "", "\t", "\r\n    ", " \n\n "]
ENCODINGS = ["utf-8", "utf-16", "iso-8859-1", "us-ascii", "UTF-8"]
INSERTS = ["<!-- a comment with <task id='no'/> -->", "<?pi some data?>",
           El("x", "meta", [("id", "ext1"), ("name", "n")], [El("x", "inner", [("bpmnElement", "t1")], text="t1")]),
           El("b", "extensionElements", [], [El("x", "prop", [("value", "1")])]),
           El("b", "documentation", [("id", "docu")], text="free text"),
           El("b", "extensionElements", [], [     # foreign elements with the names of BPMN ones
               El("x", "process", [("id", "xp"), ("name", "no")], [
                   El("x", "task", [("id", "xt")]), El("x", "laneSet", [("id", "xl")])]),
               El("x", "collaboration", [("id", "xc")], [El("x", "participant", [("id", "xpa"), ("name", "no")])]),
               El("x", "BPMNDiagram", [("id", "xd"), ("name", "no")], [El("x", "BPMNPlane", [("id", "xpl")])]),
               El("x", "BPMNPlane", [("id", "xpl"), ("bpmnElement", "no")]),
               El("x", "Bounds", [("x", "1"), ("y", "2"), ("width", "3"), ("height", "4")]),
               El("x", "waypoint", [("x", "1"), ("y", "2")])] + [
                   El("x", t, [("id", "xid"), ("name", "no")], text="no") for t in (
                       "incoming", "outgoing", "task", "startEvent", "sequenceFlow", "messageFlow", "participant",
                       "lane", "laneSet", "childLaneSet", "flowNodeRef", "conditionExpression", "messageEventDefinition",
                       "timerEventDefinition", "subProcess", "BPMNShape", "BPMNEdge")])]
TEXT_MODES = ["cdata", "splitcdata", "comment", "charref", "pad", "padnl", "pi", "cdatapad"]


def small():
    from mc.model import collaboration, connect, flow, lane, lane_set, new_doc, node, participant, process
    d = new_doc()
    p = connect(process("p1", [node("startEvent", "s", "S", defs=[("message", "m"), ("timer", "t")]),
                               node("subProcess", "t1", "T", nodes=[node("task", "in", "I"), node("task", "in2", "J")],
                                    flows=[flow("fi", "in", "in2", "", ("ci", "deep"))])],
                        [flow("f1", "s", "t1", "go", ("c1", " a < 1 "))], name="P"))
    connect(p["nodes"][1])
    p["laneSet"] = lane_set("ls", [lane("l1", "L", ["s"], lane_set("cl", [lane("l2", "M", ["t1"])]))])
    d["processes"].append(p)
    d["collaboration"] = collaboration("col", [participant("pool", "P", "p1"), participant("bb", u"Black \xe9\u20ac")],
                                       [flow("m1", "bb", "s", "msg")])
    return d


def plain():
    from mc.model import connect, flow, new_doc, node, process
    d = new_doc()
    d["processes"].append(connect(process("p1", [node("task", "a", "A"), node("task", "b", "B")],
                                          [flow("f", "a", "b", None, (None, "x"))])))
    return d


def unlisted(f, mode="none"):
    """The document without (some of) the incoming and outgoing lists of its nodes."""
    def make():
        d = f()
        docs.relist(d, mode)
        return d
    return make


BASES = [plain, small, docs.rich, unlisted(plain), unlisted(small), unlisted(docs.rich), unlisted(docs.rich, "half"), docs.fan,
         unlisted(docs.fan, "half")]
_cache = {}


def base(i):
    if i not in _cache:
        _cache[i] = BASES[i]()
    return _cache[i]


def walk(e):
    yield e
    for k in e.kids:
        if isinstance(k, El):
            for x in walk(k):
                yield x


def elements(i):
    return list(walk(model.tree(base(i))))


def kinds(e):
    out = []
    for k in e.kids:
        g = kind(k)
        if g not in out:
            out.append(g)
    return out


def kind(k):
    return "EventDefinition" if k.tag.endswith("EventDefinition") else k.tag      # their order is content


def cases(tier):
    for b in (0, 1):
        for p, i, q, e, r, n, c in itertools.product(range(len(PREFIXES)), range(-1, len(INDENTS)), (0, 1),
                                                     range(len(ENCODINGS)), (0, 1), (0, 1), (0, 1)):
            yield {"b": b, "style": [p, i, q, e, r, n, c]}
    for p in range(len(PREFIXES)):
        for i in range(-1, len(INDENTS)):
            yield {"b": 2, "style": [p, i, i % 2, p % len(ENCODINGS), p % 2, i % 2, 0]}
    for b in range(len(BASES)):
        for x in ("entities", "entity texts", "late", "default", "one", "two", "doctype", "comment before", "comment after", "bom", "nodecl", "pi before", "standalone", "blank after"):
            yield {"b": b, "file": x}
        for j, e in enumerate(elements(b)):
            if e.text is None:
                for pos in range(len(e.kids) + 1):
                    for w in range(len(INSERTS)) if b < 5 or tier == "thorough" else [(j + pos) % len(INSERTS)]:
                        yield {"b": b, "gap": [[j, pos, w]]}
            else:
                for m in TEXT_MODES:
                    yield {"b": b, "text": [[j, m]]}
            for a in ("foreign", "unknown", "xmlns", "rotate", "reverse", "xmlspace"):
                yield {"b": b, "attr": [j, a]}
            ks = kinds(e)
            if len(ks) > 1:
                for way in range(3):
                    yield {"b": b, "mix": [j, way]}
                if len(ks) <= 4:
                    perms = list(itertools.permutations(range(len(ks))))[1:]
                else:
                    perms = [[x] + [y for y in range(len(ks)) if y != x] for x in range(len(ks))] + \
                            [[y for y in range(len(ks)) if y != x] + [x] for x in range(len(ks))] + \
                            [list(reversed(range(len(ks))))]
                for pm in perms:
                    yield {"b": b, "perm": [j, list(pm)]}
        for x in ("label", "labelall", "gapsall0", "gapsall1", "gapsall2", "textall", "permall", "eventdetail", "mixall0", "mixall1", "mixall2"):
            yield {"b": b, "all": x}
    vs = []
    for j, e in enumerate(elements(1)):
        if e.text is None:
            vs += [("gap", [j, pos, w]) for pos in range(len(e.kids) + 1) for w in (
                range(len(INSERTS)) if tier == "thorough" else [(j + pos) % len(INSERTS)])]
        else:
            vs += [("text", [j, m]) for m in TEXT_MODES]
    for x, y in itertools.combinations(vs, 2):
        if x[1][0] == y[1][0]:
            continue
        yield {"b": 1, "gap": [v for k, v in (x, y) if k == "gap"], "text": [v for k, v in (x, y) if k == "text"]}
    for p in range(1, len(PREFIXES)):
        for k, v in vs:
            yield {"b": 1, k: [v], "style": [p, p % 5, p % 2, 0, 0, 0, 0]}


def text_variant(t, mode, ref):
    half = len(t) // 2
    esc = model.esc(t, None)
    cd = lambda s: "<![CDATA[" + s.replace("]]>", "]]]]><![CDATA[>") + "]]>"
    if mode == "cdata":
        return [cd(t)]
    if mode == "splitcdata":
        return [model.esc(t[:half], None), cd(t[half:])]
    if mode == "comment":
        return [model.esc(t[:half], None), "<!-- c -->", model.esc(t[half:], None)]
    if mode == "pi":
        return ["<?p q?>", esc]
    if mode == "charref":
        return ["".join("&#%d;" % ord(c) for c in t)]
    if not ref:
        return [esc]
    if mode == "pad":
        return ["  " + esc + " "]
    if mode == "padnl":
        return ["\n      " + esc + "\n\t"]
    return ["\n  ", cd(t), "  "]


def run(case, ctx):
    b = case["b"]
    root = model.tree(base(b))
    els = list(walk(root))
    for j, pos, w in sorted(case.get("gap", ()), key=lambda g: -g[1]):
        els[j].kids.insert(pos, INSERTS[w])
    for j, m in case.get("text", ()):
        els[j].text = text_variant(els[j].text, m, els[j].tag != "conditionExpression")
    if "attr" in case:
        j, a = case["attr"]
        e = els[j]
        if a == "foreign":
            e.attrs.insert(0, ("ext:color", "red"))
        elif a == "unknown":
            e.attrs.append(("startQuantity", "1"))
        elif a == "xmlns":
            e.attrs.append(("xmlns:local", "http://example.org/local"))
        elif a == "xmlspace":
            e.attrs.append(("xml:space", "preserve"))
        elif a == "rotate":
            e.attrs = e.attrs[1:] + e.attrs[:1]
        else:
            e.attrs.reverse()
    if "perm" in case:
        j, pm = case["perm"]
        permute(els[j], pm)
    if "mix" in case:
        mix(els[case["mix"][0]], case["mix"][1])
    if "all" in case:
        x = case["all"]
        for e in els:
            if x.startswith("label") and e.tag in ("BPMNShape", "BPMNEdge") and (x == "labelall" or e is els[-1]):
                e.kids.append(El("bdi", "BPMNLabel", [("id", "lab")], [El("dc", "Bounds", [
                    ("x", "7"), ("y", "8"), ("width", "9"), ("height", "11")])]))
            elif x.startswith("gapsall") and e.text is None:
                ins = INSERTS[int(x[-1])]
                e.kids = [y for k in e.kids for y in (ins, k)] + [ins]
            elif x == "textall" and e.text is not None:
                e.text = text_variant(e.text, "cdatapad", e.tag != "conditionExpression")
            elif x == "permall" and len(kinds(e)) > 1:
                permute(e, list(reversed(range(len(kinds(e))))))
            elif x.startswith("mixall") and len(kinds(e)) > 1:
                mix(e, int(x[-1]))
            elif x == "eventdetail" and e.tag.endswith("EventDefinition"):
                e.kids.append(El("b", "timeDuration", [("id", "dur")], text="PT1H"))
                e.attrs.append(("messageRef", "somewhere"))
    st = {}
    if "style" in case:
        p, i, q, e, r, n, c = case["style"]
        st = {"prefix": PREFIXES[p], "indent": None if i < 0 else INDENTS[i], "quote": "'" if q else '"',
              "encoding": ENCODINGS[e], "reverse_attrs": bool(r), "no_empty_tags": bool(n), "charref": bool(c)}
        if ENCODINGS[e] in ("iso-8859-1", "us-ascii") and p == len(PREFIXES) - 1:
            st["prefix"] = PREFIXES[1]
    f = case.get("file")
    if f == "doctype":
        st["prolog"] = ["<!DOCTYPE definitions>\n"]
    elif f == "comment before":
        st["prolog"] = ["<!-- generated -->\n"]
    elif f == "pi before":
        st["prolog"] = ["<?xml-stylesheet href='a.css'?>"]
    elif f in ("entities", "entity texts"):
        table = {}
        for e in els:
            if e.text and f == "entity texts":
                e.text = entity(e.text, table)
            if f == "entities":
                e.attrs = [(k, entity(v, table)) for k, v in e.attrs]
        st["prolog"] = ["<!DOCTYPE definitions [" + "".join('<!ENTITY %s "%s">' % (n, t) for t, n in table.items()) + "]>"]
    elif f in ("late", "default", "one", "two"):
        st["declare"] = f
    elif f == "nodecl":
        st["declaration"] = False
    data = model.serialize(root, st)
    if f == "bom":
        data = b"\xef\xbb\xbf" + data
    elif f == "comment after":
        data += b"<!-- end --><?last one?>"
    elif f == "blank after":
        data += b"\n\n   \n"
    elif f == "standalone":
        data = data.replace(b"?>", b' standalone="yes"?>', 1)
    got = model.snapshot(lib.load(data, ctx.scratch + "/v.bpmn"))
    key = ("want", b)
    if key not in _cache:
        _cache[key] = model.snapshot(lib.load(model.serialize(base(b)), ctx.scratch + "/p.bpmn"))
    same("diagram loaded from another form of the same document", got, _cache[key])
    ctx.step()
    ctx.state(data)
    ctx.trace()
    ctx.outcome(sorted(set(case) - {"b"})[0])


def entity(t, table):
    """The text written with an internal entity for its second half."""
    half = len(t) // 2
    tail = t[half:]
    if not tail or any(c in tail for c in "&<>%\"'\t\n\r"):
        return [model.esc(t)]        # (also fine inside quotes)
    table.setdefault(tail, "e%d" % len(table))
    return [model.esc(t[:half]), "&%s;" % table[tail]] if half else ["&%s;" % table[tail]]


def mix(e, way):
    """Interleaves the kinds of children: one of each kind in turn, or all of one kind between two of another."""
    ks = kinds(e)
    groups = [[k for k in e.kids if kind(k) == g] for g in ks]
    if way == 1:
        groups.reverse()
    if way == 2:
        big = max(groups, key=len)
        rest = [k for g in groups if g is not big for k in g]
        half = len(big) // 2
        e.kids = big[:half] + rest + big[half:]
        return
    out = []
    while any(groups):
        for g in groups:
            if g:
                out.append(g.pop(0))
    e.kids = out


def permute(e, pm):
    ks = kinds(e)
    rank = {ks[k]: r for r, k in enumerate(pm)}
    e.kids.sort(key=lambda k: rank[kind(k)])
