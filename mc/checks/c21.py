# coding=utf-8
"""C21: the typed element classes accept exactly legal values and keep them."""
import importlib
import itertools
import os
import subprocess
import sys

from mc.core import fail, same

RULE = ("explicit-state exploration of the real classes against a reference automaton (a table of fields with their legal "
        "values, defaults and the class hierarchy): from every reference state within the bound, every setter is called with "
        "every value of an alphabet of legal and illegal values of all kinds; acceptance, all fields of the object, a twin "
        "object made before and one made after are compared with the reference after each call. Constructors are called "
        "with all pairs of values; the modules are imported in every possible first place")
BOUND = {"quick": "27 classes; all states with at most 2 fields off their defaults x all setters x 100+ values; all constructor "
                  "argument pairs; each module imported first in a fresh interpreter",
         "thorough": "as quick, with the full product of representative values of all fields (at most 3 per field) as states"}
ASSUMPTIONS = ["a setter may keep the list it is given or a copy of it", "strings are instances of str (not bytes)"]

STR, OSTR, BOOL, OBOOL = "str", "str?", "bool", "bool?"
# class -> (module, parent, {field: (kind, default, getter)})
TABLE = {
    "BaseElement": ("base_element_type", None, {"id": (OSTR, None)}),
    "FlowElement": ("flow_element_type", "BaseElement", {"name": (OSTR, None)}),
    "FlowNode": ("flow_node_type", "FlowElement", {"incoming": (("list", "str"), []), "outgoing": (("list", "str"), [])}),
    "Activity": ("activities.activity_type", "FlowNode", {"default": (OSTR, None)}),
    "Task": ("activities.task_type", "Activity", {}),
    "SubProcess": ("activities.subprocess_type", "Activity",
                   {"triggered_by_event": (BOOL, False, "triggered_by_event"), "lane_set_list": (("list", "LaneSet"), []),
                    "flow_element_list": (("list", "FlowElement"), [])}),
    "Event": ("events.event_type", "FlowNode", {}),
    "CatchEvent": ("events.catch_event_type", "Event",
                   {"parallel_multiple": (BOOL, False, "parallel_multiple"),
                    "event_definition_list": (("list", "EventDefinition"), [])}),
    "ThrowEvent": ("events.throw_event_type", "Event", {"event_definition_list": (("list", "EventDefinition"), [])}),
    "StartEvent": ("events.start_event_type", "CatchEvent", {}),
    "IntermediateCatchEvent": ("events.intermediate_catch_event_type", "CatchEvent", {}),
    "EndEvent": ("events.end_event_type", "ThrowEvent", {}),
    "IntermediateThrowEvent": ("events.intermediate_throw_event_type", "ThrowEvent", {}),
    "Gateway": ("gateways.gateway_type", "FlowNode",
                {"gateway_direction": (("enum", "Unspecified", "Converging", "Diverging", "Mixed"), "Unspecified")}),
    "ExclusiveGateway": ("gateways.exclusive_gateway_type", "Gateway", {"default": (OSTR, None)}),
    "InclusiveGateway": ("gateways.inclusive_gateway_type", "Gateway", {"default": (OSTR, None)}),
    "ParallelGateway": ("gateways.parallel_gateway_type", "Gateway", {}),
    "RootElement": ("root_element.root_element_type", "BaseElement", {}),
    "CallableElement": ("root_element.callable_element_type", "RootElement", {"name": (OSTR, None)}),
    "EventDefinition": ("root_element.event_definition_type", "RootElement", {}),
    "Process": ("root_element.process_type", "CallableElement",
                {"process_type": (("enum", "None", "Public", "Private"), "None"), "is_closed": (BOOL, False, "is_closed"),
                 "is_executable": (BOOL, False, "is_executable"), "lane_set_list": (("list", "LaneSet"), []),
                 "flow_element_list": (("list", "FlowElement"), [])}),
    "LaneSet": ("lane_set_type", "BaseElement", {"name": (OSTR, None), "lane_list": (("list", "Lane"), [])}),
    "Lane": ("lane_type", "BaseElement", {"name": (OSTR, None), "flow_node_ref_list": (("list", "str"), []),
                                          "child_lane_set": (("inst?", "LaneSet"), None)}),
    "MessageFlow": ("message_flow_type", "BaseElement", {"name": (OSTR, None), "source_ref": (STR, "s0"),
                                                         "target_ref": (STR, "t0"), "message_ref": (OSTR, None)}),
    "Participant": ("participant_type", "BaseElement", {"name": (OSTR, None), "process_ref": (OSTR, None)}),
    "SequenceFlow": ("sequence_flow_type", "FlowElement",
                     {"source_ref": (STR, "s0"), "target_ref": (STR, "t0"), "is_immediate": (OBOOL, None, "is_immediate"),
                      "condition_expression": (("inst?", "ConditionExpression"), None)}),
    "ConditionExpression": ("condition_expression_type", None, {"condition": (STR, None)}),
}
FLOWS = ("SequenceFlow", "MessageFlow")
ROOT = "/repo/bpmn_python"


def chain(name):
    out = []
    while name:
        out.append(name)
        name = TABLE[name][1]
    return out


def fields(name):
    out = {}
    for c in reversed(chain(name)):
        for f, spec in TABLE[c][2].items():
            out[f] = spec if len(spec) == 3 else spec + ("get_" + f,)
    return out


FIELDS = {c: fields(c) for c in TABLE}
_cache = {}


def classes():
    if not _cache:
        if ROOT not in sys.path:
            sys.path.append(ROOT)
        for c, (mod, _, _) in TABLE.items():
            _cache[c] = getattr(importlib.import_module("graph.classes." + mod), c)
    return _cache


def new(cls):
    k = classes()[cls]
    return k("s0", "t0") if cls in FLOWS else k()


class Opaque(object):
    pass


class Text(str):
    """A string of a user's own class."""


class Sequence(list):
    """A list of a user's own class."""


_derived = {}


def derived(cls):
    """A user's own subclass of a class of the object model."""
    if cls not in _derived:
        _derived[cls] = type("My" + cls, (classes()[cls],), {})
    return _derived[cls]


_values = {}


def values():
    """The alphabet: key -> value (fresh lists every time it is asked for)."""
    if not _values:
        inst = {c: new(c) for c in TABLE}
        inst2 = {c: new(c) for c in TABLE}
        _values["inst"] = inst
        _values["inst2"] = inst2
        _values["mine"] = {c: derived(c)("s0", "t0") if c in FLOWS else derived(c)() for c in TABLE}
        _values["opaque"] = Opaque()
    inst, inst2 = _values["inst"], _values["inst2"]
    out = {"none": None, "empty": "", "x": "x", "text": u"a \u017c", "zero": 0, "one": 1, "float": 1.5, "true": True,
           "false": False, "bytes": b"x", "opaque": _values["opaque"], "tuple": ("a",), "set": {"a"}, "dict": {}, "dict1": {"a": "b"},
           "emptytuple": (), "class": classes()["LaneSet"], "[]": [], "['a']": ["a"], "['a','b']": ["a", "b"],
           "['']": [""], "[None]": [None], "['a',None]": ["a", None], "[None,'a']": [None, "a"], "['a',1]": ["a", 1],
           "['a','b',b]": ["a", "b", b"c"], "[1]": [1], "[True]": [True], "[[]]": [[]], "[['a']]": [["a"]]}
    for e in ("Unspecified", "Converging", "Diverging", "Mixed", "mixed", "None", "Public", "Private", "private", "true",
              "MixedX", "Mixe"):
        out["'%s'" % e] = e
    for c in TABLE:
        out[c] = inst[c]
        out["[%s]" % c] = [inst[c]]
        out["[%s,2]" % c] = [inst[c], inst2[c]]
        out["[%s,x]" % c] = [inst[c], "x"]
        out["[x,%s]" % c] = ["x", inst[c]]
        out["[%s,None]" % c] = [inst[c], None]
        out["(%s)" % c] = (inst[c],)
        out["My" + c] = _values["mine"][c]
        out["[%s,My%s]" % (c, c)] = [inst[c], _values["mine"][c]]
        out["[%s*12]" % c] = [inst[c], inst2[c]] * 6
        out["[%s*12,x]" % c] = [inst[c], inst2[c]] * 6 + ["x"]
    out["Text"] = Text("own")
    out["'Mixed' Text"] = Text("Mixed")
    out["'Public' Text"] = Text("Public")
    out["long"] = "x" * 5000
    out["[Text]"] = ["a", Text("b")]
    out["['a'*12]"] = ["a"] * 12
    out["['a'*12,1]"] = ["a"] * 12 + [1]
    out["Sequence"] = Sequence(["a", "b"])
    out["Sequence of Lane"] = Sequence([inst["Lane"]])
    out["Sequence of 1"] = Sequence([1])
    for a, b in (("Task", "SequenceFlow"), ("Lane", "LaneSet"), ("LaneSet", "Lane"), ("Task", "Lane"), ("Lane", "Task"),
                 ("Task", "Participant"), ("EventDefinition", "RootElement"), ("StartEvent", "ExclusiveGateway"),
                 ("SubProcess", "ParallelGateway")):
        out["[%s,%s]" % (a, b)] = [inst[a], inst[b]]
    return out


NAME_OF = {}


def is_a(value, cls):
    """By the reference hierarchy, not by isinstance."""
    for c, k in classes().items():
        if type(value) in (k, derived(c)):
            return cls in chain(c)
    return False


def legal(kind, v):
    if kind == STR:
        return type(v) in (str, Text)
    if kind == OSTR:
        return v is None or type(v) in (str, Text)
    if kind == BOOL:
        return type(v) is bool
    if kind == OBOOL:
        return v is None or type(v) is bool
    if kind[0] == "enum":
        return type(v) in (str, Text) and v in kind[1:]
    if kind[0] == "inst?":
        return v is None or is_a(v, kind[1])
    if type(v) not in (list, Sequence):
        return False
    return all(type(x) in (str, Text) if kind[1] == "str" else is_a(x, kind[1]) for x in v)


def rep(v):
    if isinstance(v, list):
        return ["list"] + [rep(x) for x in v]
    if v is None or isinstance(v, (str, bool, int)):
        return [type(v).__name__, v]
    return [type(v).__name__, id(v)]


def read(obj, cls):
    return {f: rep(getattr(obj, spec[2])()) for f, spec in FIELDS[cls].items()}


def defaults(cls):
    return {f: rep(spec[1]) for f, spec in FIELDS[cls].items()}


def reps(cls, f):
    """Representative legal values of a field other than its default."""
    kind, default = FIELDS[cls][f][:2]
    if kind in (STR, OSTR):
        return ["x", "empty"]
    if kind == BOOL:
        return ["true"]
    if kind == OBOOL:
        return ["true", "false"]
    if kind[0] == "enum":
        return ["'%s'" % e for e in kind[1:] if e != default][:2]
    if kind[0] == "inst?":
        return [kind[1]]
    if kind[1] == "str":
        return ["['a']", "['a','b']"]
    return ["[%s]" % kind[1], "[%s,2]" % kind[1]]


def states(cls, tier):
    fs = list(FIELDS[cls])
    if tier == "thorough":
        for combo in itertools.product(*[[None] + reps(cls, f) for f in fs]):
            yield [[f, v] for f, v in zip(fs, combo) if v is not None]
        return
    for n in range(3):
        for pick in itertools.permutations(fs, n):
            for combo in itertools.product(*[reps(cls, f) for f in pick]):
                if n == 2 and combo != tuple(reps(cls, f)[0] for f in pick):
                    continue
                yield [[f, v] for f, v in zip(pick, combo)]


def cases(tier):
    for c in TABLE:
        yield {"c": c, "defaults": 1}
    for c in TABLE:
        yield {"import": TABLE[c][0]}
    for c in FLOWS:
        yield {"ctor": c}
    for c in TABLE:
        for s in states(c, tier):
            yield {"c": c, "s": s}


def attempt(f, *a):
    try:
        f(*a)
        return True
    except (TypeError, ValueError, AttributeError):
        return False


def run(case, ctx):
    if "import" in case:
        code = "import sys; sys.path.append(%r); import importlib; importlib.import_module('graph.classes.%s')" % (
            ROOT, case["import"])
        r = subprocess.run([sys.executable, "-c", code], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(os.environ), cwd=ctx.scratch)
        if r.returncode:
            fail("importing %s first fails" % case["import"], r.stdout.decode()[-800:])
        ctx.step()
        ctx.trace()
        return
    vals = values()
    if "ctor" in case:
        k = classes()[case["ctor"]]
        for a in vals:
            for b in vals:
                va, vb = values()[a], values()[b]
                want = legal(STR, va) and legal(STR, vb)
                try:
                    o = k(va, vb)
                except (TypeError, ValueError):
                    o = None
                if (o is not None) != want:
                    fail("%s(%s, %s) is %s" % (case["ctor"], a, b, "accepted" if o is not None else "rejected"))
                if want:
                    exp = dict(defaults(case["ctor"]), source_ref=rep(va), target_ref=rep(vb))
                    same("%s(%s, %s)" % (case["ctor"], a, b), read(o, case["ctor"]), exp)
                    ctx.state(repr((case["ctor"], a, b)))
                ctx.step()
        ctx.trace()
        return
    cls = case["c"]
    if "defaults" in case:
        a, b = new(cls), new(cls)
        same("new %s" % cls, read(a, cls), defaults(cls))
        same("new %s" % cls, read(b, cls), defaults(cls))
        for f, spec in FIELDS[cls].items():
            la = getattr(a, spec[2])()
            if isinstance(la, list):
                la.append("mark")
                same("another %s after appending to the %s list of one" % (cls, f), read(b, cls), defaults(cls))
                same("a new %s after appending to the %s list of one" % (cls, f), read(new(cls), cls), defaults(cls))
                for g, other in FIELDS[cls].items():
                    lb = getattr(a, other[2])()
                    if g != f and isinstance(lb, list) and lb:
                        fail("%s and %s of one %s share a list" % (f, g, cls))
                del la[:]
            ctx.step()
        ctx.state(cls)
        ctx.trace()
        return
    for f, spec in FIELDS[cls].items():
        for key in vals:
            twin, obj = new(cls), new(cls)
            late = None
            want = defaults(cls)
            for g, v in case["s"]:
                val = values()[v]
                want[g] = rep(val)
                getattr(obj, "set_" + g)(val)
            same("%s after %s" % (cls, case["s"]), read(obj, cls), want)
            val = vals[key]
            before = rep(val)
            ok = attempt(getattr(obj, "set_" + f), val)
            late = new(cls)
            exp = legal(spec[0], val)
            if ok != exp:
                fail("%s.set_%s(%s) after %s is %s" % (cls, f, key, case["s"], "accepted" if ok else "rejected"))
            if ok:
                want[f] = before
            same("%s after %s and set_%s(%s)" % (cls, case["s"], f, key), read(obj, cls), want)
            if rep(val) != before:
                fail("%s.set_%s(%s) changes its argument" % (cls, f, key))
            same("another %s after set_%s(%s)" % (cls, f, key), read(twin, cls), defaults(cls))
            same("a new %s after set_%s(%s)" % (cls, f, key), read(late, cls), defaults(cls))
            ctx.state(repr((cls, sorted(dict(case["s"], **({f: key} if ok else {})).items()))))
            ctx.step()
        vals = values()
    for c, o in _values["inst"].items():
        same("the %s used as a value" % c, read(o, c), defaults(c))
    for c, o in _values["inst2"].items():
        same("the %s used as a value" % c, read(o, c), defaults(c))
    ctx.outcome(cls)
    ctx.trace()
