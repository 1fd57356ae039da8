# coding=utf-8
"""C10: diagrams are independent of each other, also across threads."""
import itertools
import os
import re
import sys
import threading
import traceback

import bpmn_python.bpmn_diagram_layouter as layouter
from mc import docs, history, lib, model, readonly
from mc.core import fail, forked, same

RULE = ("(a) all interleavings of the operations of two scripts, each on its own diagram; (b) preemption of one script at a "
        "line of library code by another thread that runs another script (completely, or its first k operations, the rest "
        "after the first script has ended), with a scheduler that decides the switch points; results, exported files "
        "and full diagram data of both scripts are compared with those of the script run alone in a fresh process (generated "
        "identifiers renamed in order of appearance); (c) two diagrams made the same way, by every pair of construction calls, or loaded from the same file (another loaded in between), share no mutable object and leave each other alone. Every "
        "schedule runs in a process forked from a state in which no diagram was made yet")
BOUND = {"quick": "(a) 8 scripts of 5 operations: all 252 interleavings of 22 pairs; (b) 8 scripts preempted at the first visit of each line of "
                  "library code they visit by a script of the same kind, and at the last visit by one of another kind; (c) 16 kinds, all pairs of construction calls, documents of 9 families",
         "thorough": "(a) all pairs, and all 1,680 interleavings of triples of scripts cut to 3 operations; (b) every line event is a switch "
                     "point, every other script intrudes at first visits, and the intruder is itself stopped after each of its operations"}
ASSUMPTIONS = ["line granularity of switches, in files of bpmn_python only", "scripts write to different directories"]
CPU_LIMIT = 120
BUDGET = {"quick": 700, "thorough": 9000}
HERE = "/repo/bpmn_python"


# ---------------------------------------------------------------- scripts

BUILD = [["new", "Built"], ["proc", {"process_name": "P"}], ["start", 0, {"start_event_name": "s", "start_event_definition": "timer"}],
         ["task", 0, {"task_name": "t"}], ["xor", 0, {"gateway_name": "g"}], ["task", 0, {"task_name": "u"}],
         ["sub", 0, {"subprocess_name": "v"}], ["xor", 0], ["end", 0, {"end_event_name": "e"}]]
BUILD2 = [["flow", 0, 0, 1], ["flow", 0, 1, 2], ["flow", 0, 2, 3, {"sequence_flow_name": "yes"}],
          ["flow", 0, 2, 4, {"sequence_flow_name": "no"}], ["flow", 0, 3, 5], ["flow", 0, 4, 5], ["flow", 0, 5, 6]]
SMALL = [["new"], ["proc"], ["task", 0], ["and", 0, {"gateway_name": "other"}], ["end", 0, {"end_event_name": "z"}], ["flow", 0, 0, 1],
         ["flow", 0, 1, 2]]
METRICS = readonly.COUNTS + readonly.DICTS + ["get_nodes_count", "AverageGatewayDegree_metric",
                                             "CoefficientOfNetworkComplexity_metric"]
OPS = readonly.operations()


def measure(s):
    return [readonly.outcome(OPS[m], s.d, s.p) for m in METRICS + readonly.LAYOUT + ["get_nodes_positions", "get_nodes task"]]


def play(s, ops):
    if s.run is None:
        s.d = lib.BpmnDiagramGraph()
        s.run = history.Run(s.d)
    for op in ops:
        s.run.do(op)
    return None


def xml(s, doc):
    s.d = lib.load(model.serialize(doc()), s.p + "in.bpmn")


def csv(s, text):
    s.d = lib.load_csv(text, s.p + "in.csv")


def xml_out(s):
    return lib.export(s.d, s.p, "o.bpmn")


def no_di_out(s):
    return lib.export(s.d, s.p, "n.bpmn", no_di=True)


def csv_out(s):
    return lib.export_csv(s.d, s.p, "o.csv")


def layout(s):
    layouter.generate_layout(s.d)


def again(s):
    lib.export(s.d, s.p, "again.bpmn")
    s.d = lib.load_file(s.p + "again.bpmn")


def csv_again(s):
    lib.export_csv(s.d, s.p, "again.csv")
    s.d = lib.load_file_csv(s.p + "again.csv")


def refused(s):
    out = []
    for f, a in (("add_task_to_diagram", ("nope",)), ("add_end_event_to_diagram", (s.run.scopes[0], "x", "timer")),
                 ("add_start_event_to_diagram", (s.run.scopes[0], "x", "terminate"))):
        try:
            getattr(s.d, f)(*a)
            out.append("accepted")
        except Exception as e:
            out.append(type(e).__name__)
    try:
        with open(s.p + "bad.bpmn", "w") as f:
            f.write("<definitions>")
        lib.load_file(s.p + "bad.bpmn")
    except Exception as e:
        out.append(type(e).__name__)
    return out


def conditional():
    d = model.new_doc()
    m = model
    d["processes"].append(m.connect(m.process("q1", [
        m.node("startEvent", "s", "S"), m.node("exclusiveGateway", "g", "G", default="f3"), m.node("task", "a", "A"),
        m.node("task", "b", "B"), m.node("exclusiveGateway", "j", ""), m.node("endEvent", "e", "E")],
        [m.flow("f1", "s", "g"), m.flow("f2", "g", "a", "", ("c", "x > 1")), m.flow("f3", "g", "b"), m.flow("f4", "a", "j"),
         m.flow("f5", "b", "j"), m.flow("f6", "j", "e")], name="Q")))
    return d


SCRIPTS = {
    "build": [lambda s: play(s, BUILD), lambda s: play(s, BUILD2), layout, measure, lambda s: [xml_out(s), no_di_out(s), csv_out(s)]],
    "small": [lambda s: play(s, SMALL[:4]), refused, lambda s: play(s, SMALL[4:]), lambda s: [xml_out(s), no_di_out(s)], measure],
    "rich": [lambda s: xml(s, docs.rich), xml_out, measure, no_di_out, again],
    "cond": [lambda s: xml(s, conditional), csv_out, layout, xml_out, csv_again],
    "csv": [lambda s: csv(s, readonly.CSV1), csv_out, layout, measure, xml_out],
    "goto": [lambda s: csv(s, readonly.CSV2), measure, csv_out, layout, no_di_out],
    "csv twice": [lambda s: csv(s, readonly.CSV1), csv_again, measure, csv_out, lambda s: csv(s, readonly.CSV2)],
    "rebuild": [lambda s: play(s, SMALL), xml_out, again, measure, lambda s: (layout(s), xml_out(s))[1]],
}
KIND = {"build": "small", "small": "build", "rich": "cond", "cond": "rich", "csv": "goto", "goto": "csv", "csv twice": "csv",
        "rebuild": "rich"}
OTHER = {"build": "csv", "small": "rich", "rich": "build", "cond": "csv", "csv": "cond", "goto": "build", "csv twice": "goto",
         "rebuild": "build"}


class Script(object):
    def __init__(self, name, p, limit=None):
        self.name = name
        self.p = p
        self.d = None
        self.run = None
        self.steps = SCRIPTS[name][:limit]
        self.i = 0
        self.results = []

    def step(self):
        f = self.steps[self.i]
        self.i += 1
        try:
            r = ["value", f(self)]
        except Exception as e:
            r = ["exception", type(e).__name__, traceback.format_exc(limit=-3)]
        self.results.append(r)

    def rest(self, k=None):
        while self.i < len(self.steps) and (k is None or self.i < k):
            self.step()

    def result(self):
        for r in self.results:
            if r[0] == "exception":
                fail("script %s, operation %d fails" % (self.name, self.results.index(r)), r[2])
        return {"results": readonly.plain([r[1] for r in self.results]), "diagram": readonly.plain(readonly.raw(self.d))}


def ids_in(x, out):
    """All strings that are identifiers somewhere: id values, keys of elements."""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("id", "process_id", "process", "bpmnElement") and isinstance(v, str):
                out.append(v)
            if isinstance(v, (dict, list)) and isinstance(k, str):
                out.append(k)
            ids_in(v, out)
    elif isinstance(x, list):
        if x and isinstance(x[0], str):
            out.append(x[0])
        for y in x:
            ids_in(y, out)
    return out


def rename(x, m, pat):
    if isinstance(x, str):
        return pat.sub(lambda k: m[k.group(0)], x) if pat else x
    if isinstance(x, bytes):
        return rename(x.decode("utf-8"), m, pat)
    if isinstance(x, dict):
        return {rename(k, m, pat): rename(v, m, pat) for k, v in x.items()}
    if isinstance(x, list):
        return [rename(y, m, pat) for y in x]
    return x


def normal(res, fixed):
    """Renames the generated identifiers (those not in fixed)."""
    m = {}
    for i in ids_in(res["diagram"], []):
        if i not in fixed and i not in m:
            m[i] = "#%d#" % len(m)
    pat = re.compile("|".join(re.escape(i) for i in sorted(m, key=len, reverse=True))) if m else None
    return rename(res, m, pat)


_solo = {}


def solo(name, ctx, limit=None):
    key = (name, limit)
    if key not in _solo:
        def once(p):
            s = Script(name, p, limit)
            s.rest()
            return s.result()
        p, q = ctx.dir(), ctx.dir()
        a, b = forked(lambda: once(p)), forked(lambda: once(q))
        fixed = set(ids_in(a["diagram"], [])) & set(ids_in(b["diagram"], []))
        n1, n2 = normal(a, fixed), normal(b, fixed)
        same("the script %s run alone again" % name, n2, n1)
        _solo[key] = (n1, fixed)
    return _solo[key]


def compare(s, ctx, how, limit=None):
    want, fixed = solo(s.name, ctx, limit)
    got = normal(s.result(), fixed)
    if got != want:
        same("script %s in %s" % (s.name, how), got, want)


# ---------------------------------------------------------------- scheduler

class Switch(object):
    """Calls back at the n-th line event in library code of this thread."""

    def __init__(self, n=None, action=None):
        self.n, self.action = n, action
        self.count = 0
        self.seen = []

    def trace(self, frame, event, arg):
        if self.n is not None and self.count > self.n:
            return None
        if frame.f_code.co_filename.startswith(HERE):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line":
            if self.n is None:
                self.seen.append((frame.f_code.co_filename, frame.f_lineno))
            elif self.count == self.n:
                sys.settrace(None)
                self.count += 1
                self.action()
                return None
            self.count += 1
        return self.local

    def run(self, f):
        sys.settrace(self.trace)
        try:
            f()
        finally:
            sys.settrace(None)


_points = {}


def points(name):
    """The line events of a script, in order."""
    if name not in _points:
        import shutil
        import tempfile

        def once():
            tmp = tempfile.mkdtemp(prefix="bpmnmc_") + os.sep
            try:
                s = Script(name, tmp)
                t = Switch()
                t.run(s.rest)
                return t.seen
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        _points[name] = forked(once)
    return _points[name]


def chosen(name, tier):
    seen = points(name)
    if tier == "all":
        return list(range(len(seen)))
    visits = {}
    for i, p in enumerate(seen):
        visits.setdefault(p, []).append(i)
    out = set()
    for v in visits.values():
        if tier == "first":
            out.add(v[0])
        else:
            out.add(v[-1])
    return sorted(out)


def kinds():
    """Every construction call that can be made on a diagram with two nodes, event definitions and gateway types varied."""
    for k in ("task", "sub", "xor", "or", "and"):
        yield [k, 0]
    yield ["sub", 0, {"subprocess_name": "n", "is_expanded": True, "triggered_by_event": True}]
    for k in ("start", "end"):
        yield [k, 0]
        for d in model.DEFS[history.TYPE[k]]:
            yield [k, 0, {k + "_event_definition": d}]
    for g in model.GATEWAYS:
        yield ["gw:" + g, 0]
        yield ["gw:" + g, 0, {"gateway_name": "n", "gateway_direction": "Mixed"}]
    for t in model.TASKS:
        yield ["fn:" + t, 0, {"name": "n"}]
    yield ["flow", 0, 0, 1]
    yield ["flow", 0, 1, 0, {"sequence_flow_name": "n"}]
    yield ["proc"]
    yield ["proc", {"process_name": "n", "process_is_closed": True}]
    yield ["new", "n"]


DOC_FAMS = ("node", "flow", "nest", "process", "pool", "lane", "dev", "size", "alias")


def doc_cases(tier):
    n = 0
    for c in docs.cases("short", DOC_FAMS):
        n += 1
        if tier == "thorough" or n % 4 == 0 or c.get("defs") or c["f"] in ("process", "size", "nest"):
            yield c


def cases(tier):
    for k in readonly.DIAGRAMS:
        yield {"share": k}
    for a in kinds():
        for b in kinds():
            yield {"op": a, "with": b}
    prev = None
    for c in doc_cases(tier):
        yield {"doc": c, "between": prev}
        prev = c
    names = list(SCRIPTS)
    for i, a in enumerate(names):
        for b in names[i:]:
            for pick in itertools.combinations(range(10), 5):
                if a == b and pick[0] != 0:
                    continue
                if tier == "quick" and a != b and b not in (KIND[a], OTHER[a]) and a not in (KIND[b], OTHER[b]):
                    continue
                yield {"a": a, "b": b, "first": list(pick)}
    for a in names:
        first = chosen(a, "first")
        for n in first:
            yield {"a": a, "b": KIND[a], "at": n}
        for n in chosen(a, "last"):
            if n not in first:
                yield {"a": a, "b": OTHER[a], "at": n}
    if tier == "thorough":
        for a in names:
            first = set(chosen(a, "first"))
            for n in chosen(a, "all"):
                if n not in first:
                    yield {"a": a, "b": KIND[a], "at": n}
            for n in sorted(first):
                for b in names:
                    if b != KIND[a]:
                        yield {"a": a, "b": b, "at": n}
                for k in range(1, 5):
                    yield {"a": a, "b": KIND[a], "at": n, "k": k}
                    yield {"a": a, "b": OTHER[a], "at": n, "k": k}
        for t in itertools.combinations(names, 3):
            for s in sorted(set(itertools.permutations((0, 0, 0, 1, 1, 1, 2, 2, 2)))):
                yield {"three": t, "order": s}


def run(case, ctx):
    if "share" in case:
        p, q = ctx.dir(), ctx.dir()
        forked(lambda: share(case, p, q))
        ctx.step(2)
    elif "op" in case:
        forked(lambda: two(case))
        ctx.step(4)
    elif "doc" in case:
        p = ctx.dir()
        forked(lambda: twice(case, p))
        ctx.step(3)
    elif "three" in case:
        for n in case["three"]:
            solo(n, ctx, 3)

        dirs = [ctx.dir() for _ in range(3)]

        def go():
            ss = [Script(n, p, 3) for n, p in zip(case["three"], dirs)]
            for i in case["order"]:
                ss[i].step()
            for s in ss:
                compare(s, ctx, "the interleaving %s" % (case["order"],), 3)
        forked(go)
        ctx.step(9)
    else:
        a, b = case["a"], case["b"]
        solo(a, ctx)
        solo(b, ctx)
        pa, pb = ctx.dir(), ctx.dir()
        forked(lambda: pair(case, ctx, Script(a, pa), Script(b, pb)))
        ctx.step(10)
    ctx.state(repr(case))
    ctx.outcome("share" if "share" in case else "pair of calls" if "op" in case else "loaded twice" if "doc" in case else "interleaving" if "at" not in case else "preemption of " + case["a"])
    ctx.trace()


def pair(case, ctx, s, t):
    if "first" in case:
        for i in range(len(s.steps) + len(t.steps)):
            (s if i in case["first"] else t).step()
        how = "an interleaving with the other script"
    else:
        def intrude():
            th = threading.Thread(target=t.rest, args=(case.get("k"),))
            th.start()
            th.join()
        Switch(case["at"], intrude).run(s.rest)
        t.rest()
        how = "a schedule that switches to the other script at line event %d" % case["at"]
    compare(s, ctx, how)
    compare(t, ctx, how)


# ---------------------------------------------------------------- sharing

def mutable(x, seen, keep):
    """id -> object of every mutable container reachable from x."""
    todo = [(x, "")]
    while todo:
        o, path = todo.pop()
        if o is None or isinstance(o, (str, bytes, int, float, bool, type)) or id(o) in seen or callable(o) and not hasattr(o, "__dict__"):
            continue
        if isinstance(o, (tuple, frozenset)):
            todo.extend((y, path) for y in o)
            continue
        if type(o).__name__ in ("module", "function", "builtin_function_or_method", "method"):
            continue
        seen[id(o)] = path
        keep.append(o)
        if isinstance(o, dict):
            todo.extend((v, "%s[%r]" % (path, k)) for k, v in o.items())
        elif isinstance(o, (list, set)):
            todo.extend((v, path + "[]") for v in o)
        if hasattr(o, "__dict__"):
            todo.extend((v, "%s.%s" % (path, k)) for k, v in vars(o).items())
    return seen


def disjoint(what, *diagrams):
    keep = []
    seen = [mutable(d, {}, keep) for d in diagrams]
    for m, n in itertools.combinations(seen, 2):
        for i in m:
            if i in n:
                fail("%s share the object at %s" % (what, m[i]))


def two(case):
    """Two diagrams, a call on each, alternately."""
    base = [["new"], ["proc"], ["task", 0], ["task", 0]]
    ds = [lib.BpmnDiagramGraph(), lib.BpmnDiagramGraph()]
    rs = [history.play(d, base) for d in ds]
    for i in (0, 1, 0, 1):
        op = case["op"] if i == 0 else case["with"]
        if op[0] == "flow" and any(f["source"] == rs[i].nodes[op[2]] and f["target"] == rs[i].nodes[op[3]]
                                   for f in rs[i].m["flows"].values()):
            continue
        if op[0] != "new" and not rs[i].scopes:
            continue
        other = readonly.raw(ds[1 - i])
        rs[i].do(op)
        same("the other diagram after %r" % (op,), readonly.plain(readonly.raw(ds[1 - i])), readonly.plain(other))
        for r in rs:
            r.compare()
    disjoint("diagrams built by %r and %r" % (case["op"], case["with"]), *ds)


def twice(case, p):
    """The same file loaded twice, another one in between."""
    data = model.serialize(docs.build(case["doc"]))
    a = lib.load(data, p + "a.bpmn")
    first = readonly.plain(readonly.raw(a))
    ds = [a]
    if case["between"]:
        ds.append(lib.load(model.serialize(docs.build(case["between"])), p + "c.bpmn"))
    b = lib.load(data, p + "a.bpmn")
    ds.append(b)
    same("the first diagram after loading others", readonly.plain(readonly.raw(a)), first)
    same("the file loaded again", readonly.plain(readonly.raw(b)), first)
    disjoint("diagrams loaded one after the other", *ds)


def share(case, p, q):
    a, b = readonly.DIAGRAMS[case["share"]](p), readonly.DIAGRAMS[case["share"]](q)
    keep = []
    ma, mb = mutable(a, {}, keep), mutable(b, {}, keep)
    for i in ma:
        if i in mb:
            fail("two diagrams made the same way (%s) share the object at %s" % (case["share"], ma[i]))
    la, lb = ids_in(readonly.plain(readonly.raw(a)), []), set(ids_in(readonly.plain(readonly.raw(b)), []))
    fixed = {i for i in la if i in lb}
    na = normal({"diagram": readonly.plain(readonly.raw(a))}, fixed)
    same("the second diagram made the same way", normal({"diagram": readonly.plain(readonly.raw(b))}, fixed), na)
