# coding=utf-8
"""C18: crossing and segment counts of a drawing are exact."""
import itertools
from fractions import Fraction

import bpmn_python.diagram_layout_metrics as lm
from mc import facts, lib, model
from mc.core import fail, same

RULE = ("every pair of segments with end points on a grid (degenerate segments, touching, overlapping and collinear ones "
        "included), every triple of segments on a smaller grid, every polyline of three or four points against every segment, "
        "every polyline on its own; each also scaled, moved to negative coordinates, in dyadic fractions, as strings and "
        "numbers, flows in both orders and directions; and the drawings of the document families (nested flows, message flows); compared with exact rational arithmetic")
BOUND = {"quick": "pairs on the 4x4, 7x2 and 2x7 grids, triples on the 3x2 grid, polylines on the 3x3 grid, pairs of "
                  "polylines on the 3x2 grid",
         "thorough": "pairs on the 6x6, 12x2, 2x12 and 9x3 grids, triples and pairs of polylines on the 3x3 grid"}
ASSUMPTIONS = ["coordinates are representable exactly as floating point numbers"]
# each case is a block of drawings to keep the overhead of enumeration low
FORMS = ["str", "neg", "half", "big", "float string", "tiny", "digits", "int", "mixed"]


def points(w, h):
    return [(x, y) for x in range(w) for y in range(h)]


def cases(tier):
    for g in [(4, 4), (7, 2), (2, 7)] if tier == "quick" else [(6, 6), (12, 2), (2, 12), (9, 3)]:
        for i in range(len(points(*g)) ** 2):
            yield {"kind": "pairs", "grid": g, "i": i}
    g = (3, 2) if tier == "quick" else (3, 3)
    n = len(points(*g)) ** 2
    for i in range(n):
        for j in range(i, n):
            yield {"kind": "triples", "grid": g, "i": i, "j": j}
    n = len(points(3, 3))
    for i in range(n ** 3):
        yield {"kind": "poly", "grid": (3, 3), "i": i}
    for i in range(4 ** 4):
        yield {"kind": "poly4", "grid": (2, 2), "i": i}
    for i in range(6 ** 3):
        yield {"kind": "polys", "grid": (3, 2), "i": i}
    if tier == "thorough":
        for i in range(9 ** 3):
            yield {"kind": "polys", "grid": (3, 3), "i": i}
        for i in range(9 ** 4):
            yield {"kind": "self", "grid": (3, 3), "i": i}
    for form in FORMS:
        for i in range(81):
            yield {"kind": "pairs", "grid": (3, 3), "i": i, "form": form}
    for n in list(range(2, 14)) + [20, 33]:
        yield {"kind": "fan", "n": n}
    yield {"kind": "xml"}
    yield {"kind": "none"}
    for c in facts.cases(tier):
        yield c


def segs(wps):
    return list(zip(wps, wps[1:]))


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def on(p, a, b):
    return cross(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def meet(s, t):
    """Have the two closed segments a point in common?"""
    a, b = s
    c, d = t
    if on(a, c, d) or on(b, c, d) or on(c, a, b) or on(d, a, b):
        return True
    sign = lambda v: (v > 0) - (v < 0)
    return (sign(cross(a, b, c)) * sign(cross(a, b, d)) < 0) and (sign(cross(c, d, a)) * sign(cross(c, d, b)) < 0)


def reference(polys):
    ss = [s for p in polys for s in segs(p)]
    return sum(1 for s, t in itertools.combinations(ss, 2) if not set(s) & set(t) and meet(s, t)), len(ss)


FORM = {
    "int": lambda p: p, "str": lambda p: (str(p[0]), str(p[1])), "neg": lambda p: (str(p[0] - 2), str(p[1] - 1)),
    "half": lambda p: (p[0] * 0.5 - 0.25, p[1] * 0.125), "big": lambda p: (p[0] * 1024 + 100000, -p[1] * 4096),
    "tiny": lambda p: (p[0] * 2.0 ** -20, 1000 + p[1] * 2.0 ** -20), "digits": lambda p: (str(p[0] + 8), str(p[1] * 90 + 10)),
    "mixed": lambda p: (str(p[0] + 9), float(p[1] - 1)),
    "float string": lambda p: ("%.1f" % p[0], "%.2f" % (p[1] * 0.25)),
}


class Drawing(object):
    """A diagram whose waypoints are replaced in place."""

    def __init__(self, n):
        d = lib.BpmnDiagramGraph()
        d.create_new_diagram_graph("D")
        p = d.add_process_to_diagram()
        self.flows = []
        for i in range(n + 1):
            d.add_task_to_diagram(p, "T", node_id="n%d" % i)
        for i in range(n):
            d.add_sequence_flow_to_diagram(p, "n%d" % i, "n%d" % (i + 1))
        self.d = d
        self.n = n
        for _, _, a in d.get_flows():
            self.flows.append(a)

    def check(self, polys, ctx, form="int"):
        f = FORM[form]
        want = reference(polys)
        for a, p in zip(self.flows, polys):
            a["waypoints"] = [f(x) for x in p]
        got = (lm.count_crossing_points(self.d), lm.count_segments(self.d))
        if got != want:
            fail("(crossings, segments) of %r: got %r, expected %r" % ([a["waypoints"] for a in self.flows], got, want))
        ctx.step()
        ctx.outcome("%d crossings" % want[0])


def document(case, ctx):
    """A drawing that comes from a file; counts need waypoints, and exact ones."""
    f = facts.Facts(case)
    if f.polys is None or not all(v * 16 == int(v * 16) and abs(v) < 65536 for p in f.polys for w in p for v in w):
        return
    if f.parallel:
        return
    d = f.load(ctx.scratch + "/in.bpmn")
    want = reference([[(Fraction(x), Fraction(y)) for x, y in p] for p in f.polys])
    same("crossings and segments", (lm.count_crossing_points(d), lm.count_segments(d)), want)
    ctx.step()
    ctx.state(repr(case))
    ctx.trace()
    ctx.outcome("document, %d crossings" % want[0])


def run(case, ctx):
    if "f" in case:
        return document(case, ctx)
    k = case["kind"]
    if k in ("fan", "xml", "none"):
        return special(case, ctx)
    form = case.get("form", "str" if case["i"] % 2 else "int")
    ps = points(*case["grid"])
    ss = list(itertools.product(ps, repeat=2))
    if k == "pairs":
        dr = Drawing(2)
        s = ss[case["i"]]
        for t in ss:
            dr.check([list(s), list(t)], ctx, form)
    elif k == "triples":
        dr = Drawing(3)
        for t in ss:
            dr.check([list(ss[case["i"]]), list(t), list(ss[case["j"]])], ctx, form)
    elif k in ("poly", "poly4"):
        m = 3 if k == "poly" else 4
        i, p = case["i"], []
        for _ in range(m):
            p.append(ps[i % len(ps)])
            i //= len(ps)
        dr = Drawing(2)
        for j, t in enumerate(ss):
            dr.check([p, list(t)], ctx, form)
            dr.check([list(t), p[::-1]], ctx, form)
    elif k == "polys":
        i, p = case["i"], []
        for _ in range(3):
            p.append(ps[i % len(ps)])
            i //= len(ps)
        dr = Drawing(2)
        for q in itertools.product(ps, repeat=3):
            dr.check([p, list(q)], ctx, form)
    elif k == "self":
        i, p = case["i"], []
        for _ in range(4):
            p.append(ps[i % len(ps)])
            i //= len(ps)
        Drawing(1).check([p], ctx, form)
    ctx.state(repr(case))
    ctx.trace()


def special(case, ctx):
    if case["kind"] == "none":
        for n in (0, 1, 2):
            d = lib.BpmnDiagramGraph()
            d.create_new_diagram_graph("D")
            p = d.add_process_to_diagram()
            for i in range(n):
                d.add_task_to_diagram(p)
            same("crossings", lm.count_crossing_points(d), 0)
            same("segments", lm.count_segments(d), 0)
            ctx.step()
    elif case["kind"] == "fan":
        n = case["n"]
        # n horizontal against n vertical lines, each also as a polyline
        polys = [[(0, 2 * i + 1), (2 * n + 1, 2 * i + 1)] for i in range(n)]
        polys += [[(2 * i + 1, 0), (2 * i + 1, n), (2 * i + 1, 2 * n + 1)] for i in range(n)]
        for form in FORMS:
            Drawing(2 * n).check(polys, ctx, form)
            Drawing(2 * n).check(polys[::-1], ctx, form)
        star = [[(-i, n - i), (i, i - n)] for i in range(n)]
        Drawing(n).check(star, ctx)
    else:
        # waypoints that come from a file
        doc = model.new_doc()
        ws = [[("0", "0"), ("10.5", "10.5")], [("0", "10.5"), ("10.5", "0.0")], [("-5", "3"), ("20", "3"), ("20", "-7.25")]]
        nodes = [model.node("task", "n%d" % i) for i in range(4)]
        flows = [model.flow("f%d" % i, "n%d" % i, "n%d" % (i + 1), None, None, w) for i, w in enumerate(ws)]
        doc["processes"].append(model.connect(model.process("p1", nodes, flows)))
        d = lib.load(model.serialize(doc), ctx.scratch + "/in.bpmn")
        polys = [[(Fraction(x), Fraction(y)) for x, y in w] for w in ws]
        same("crossings and segments", (lm.count_crossing_points(d), lm.count_segments(d)), reference(polys))
        ctx.step()
    ctx.state(repr(case))
    ctx.trace()
