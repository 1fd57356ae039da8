# coding=utf-8
"""C05: import(export(d)) equals d (processes and drawing) and exporting again gives the same file."""
from mc import docs, history, layouts, lexicon, lib, model, tables
from mc.core import same

RULE = ("every document of the families node, flow, graph, nest, process, dev, text, ids, geo, size (see C03) is imported, "
        "exported and re-imported; every history of construction calls of the bound, diagrams imported from process tables, "
        "imported diagrams extended by construction calls and laid-out diagrams are exported and re-imported; the second "
        "diagram is compared with the first through the public interface and the second export with the first")
BOUND = {"quick": "documents as C03 quick (deviations <= 2); histories of 4 operations, all argument combinations",
         "thorough": "documents as C03 thorough (deviations <= 3); histories of 5 operations"}
ASSUMPTIONS = ["at most one flow per ordered pair of nodes", "coordinates are compared as numbers",
               "carriage returns in condition text are outside the bound"]
FAMS = ["node", "flow", "graph", "nest", "process", "text", "ids", "geo", "size", "alias"]


def api_cases(tier):
    for ops in history.arguments():
        yield {"ops": ops}
    for ops in history.texts(docs.TEXTS + lexicon.words(), docs.IDS + lexicon.idents()):
        yield {"ops": ops}
    for n in (1, 2, 3):
        for ops in history.graphs(n, True, 1):
            yield {"ops": ops}
    for c in history.size_cases((5, 9, 10, 11, 25, 100)):
        yield c
    for ops in history.sequences(5 if tier == "thorough" else 4, renew=False):
        yield {"ops": ops}
        yield {"ops": ops, "live": 1}
    for ops in history.sequences(4 if tier == "thorough" else 3, renew=False):
        for s in history.DECORATIONS:
            yield {"ops": history.decorate(ops, s)}


def other_cases(tier, lay=True):
    """Diagrams from process tables, imported diagrams extended by calls, laid-out ones."""
    for c in history.extension_cases(tier):
        yield c
    for c in tables.some(tier):
        yield {"csv": c}
        if lay and "0" not in c["g"]:
            yield {"csv": c, "lay": 1}
    if lay:
        for n in (1, 2, 3):
            for ops in history.graphs(n, True, 1):
                es = [(op[2], op[3]) for op in ops if op[0] == "flow"]
                if layouts.rooted(n, es):
                    yield {"ops": ops, "lay": 1}


def cases(tier):
    for c in api_cases(tier):
        yield c
    for c in other_cases(tier):
        yield c
    for c in docs.cases(tier, FAMS):
        yield c
    for c in docs.fam_dev("quick" if tier == "thorough" else "short"):
        yield c


def make(case, ctx):
    """The diagram of a case."""
    if "f" in case or "csv" in case:
        if "f" in case:
            d = lib.load(model.serialize(docs.build(case)), ctx.scratch + "/in.bpmn")
        else:
            d = tables.load(case["csv"], ctx.scratch + "/in.csv")
        if "then" in case:
            history.play(d, case["then"], adopt=True)
        if case.get("lay"):
            lib.layout(d)
        return d
    d = lib.BpmnDiagramGraph()

    def each(r):                 # the diagram is exported after every call
        if r.scopes:
            out = ctx.dir()
            lib.export(d, out)
            lib.export(d, out, "nodi.bpmn", no_di=True)
    r = history.play(d, history.decode(case), False, each if case.get("live") else None)
    ctx.step(len(r.nodes) + len(r.flows))
    if case.get("lay"):
        lib.layout(d)
    return d


def project(s):
    s = dict(s)
    pools = set(s["collaboration"]["participants"]) if s["collaboration"] else set()
    msgs = set(s["collaboration"]["messageFlows"]) if s["collaboration"] else set()
    s["nodes"] = {k: dict(v, incoming=[x for x in v["incoming"] if x not in msgs],
                          outgoing=[x for x in v["outgoing"] if x not in msgs])
                  for k, v in s["nodes"].items() if k not in pools}
    s["flows"] = {k: v for k, v in s["flows"].items() if k not in msgs}
    s["processes"] = {k: {a: b for a, b in v.items() if a != "laneSet"} for k, v in s["processes"].items()}
    s.pop("collaboration")
    return s


def run(case, ctx):
    d1 = make(case, ctx)
    s1 = model.snapshot(d1)
    dir1, dir2 = ctx.dir(), ctx.dir()
    b1 = lib.export(d1, dir1)
    d2 = lib.load_file(dir1 + "out.bpmn")
    s2 = model.snapshot(d2)
    same("re-imported diagram", project(s2), project(model.after_round_trip(s1)))
    b2 = lib.export(d2, dir2)
    if b1 != b2:        # sibling order may differ, content may not
        same("second export", project(model.expected(model.parse(b2))), project(model.expected(model.parse(b1))))
    ctx.step(3)
    ctx.state(b1 if "f" in case else repr(case))
    ctx.trace()
    ctx.outcome("extended" if "then" in case else case.get("f", "table" if "csv" in case else "api"))
