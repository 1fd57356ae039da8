# coding=utf-8
"""C12: CSV export lists the process in order."""
import csv
import io
import itertools
import os

import bpmn_python.bpmn_diagram_exception as exc
from mc import blocks, docs, history, lexicon, lib, model
from mc.core import fail, same

RULE = ("every block-structured process with up to the given number of rows (splits of 2-3 branches anywhere, also consecutive, "
        "nested at the start or end of a branch; branches that merge, end, stop or are empty), with gateway types, flow labels "
        "(name, condition, both, default), kinds of activities and events varied, exported by the code and compared with the "
        "rows derived from the structure; texts in every cell; larger processes; and all diagrams of up to three nodes without "
        "exactly one start, which must be refused without writing")
BOUND = {"quick": "up to 6 rows, nesting 2, plus larger processes; graphs of up to 3 nodes for refusal",
         "thorough": "up to 7 rows, nesting 3, plus larger processes; graphs of up to 3 nodes for refusal"}
ASSUMPTIONS = ["at most 26 branches; an empty branch only where the join is followed by an activity or end event"]
HEADER = ["Order", "Activity", "Condition", "Who", "Subprocess", "Terminated"]
STYLES = ["name", "expr", "both", "default", "first default", "none"]
PAIR = ("T", ("S", ("T",), ("T", "T")), "T", "E")


def cases(tier):
    plan = ([(n, 2, (2, 3)) for n in range(1, 7)] if tier == "quick" else
            [(n, 3, (2, 3)) for n in range(1, 8)])
    k = 0
    for n, depth, ways in plan:
        for s in blocks.seqs(n, depth, ways, True):
            k += 1
            yield variant(s, k)
    for s in blocks.sizes():
        for k in (0, 7, 14):
            yield variant(s, k)
    yield {"s": ("T",) * 150 + ("E",)}
    yield {"s": ("T",) * 520 + ("E",), "known": "C12-long-sequence"}
    few = [PAIR, ("T", ("S", ("T",), ()), "T", "E"), ("T", ("S", ("T",), ("E",), ("T",)), "E"), (("S", ("E",), ("T", "E")),),
           ("T", ("S", ("T", ("S", ("T",), ("T",))), ("T",)), "E"), ("T", ("S", (), ("T",)), "E"),
           (("S", (("S", ("T",), ("T",)), "T"), ("T",)), ("S", ("T",), ("T",)), "E")]
    for s in few:
        for g in itertools.product(blocks.GATES, repeat=2):
            for st in itertools.product(STYLES, repeat=2):
                yield {"s": s, "gates": g, "style": st}
    for acts in itertools.product(blocks.ACTS, repeat=3):
        yield {"s": PAIR, "acts": acts}
    for start, defs in [("startEvent", d) for d in starts()] + [(a, ()) for a in blocks.ACTS]:
        for end in ends():
            yield {"s": PAIR, "start": start, "startdefs": defs, "end": end, "perm": "reversed"}
    for word in ("message", "timer", "Message", "error"):           # names that look like the prefixes
        for t in ("%s", "%s ", " %s", "%s x", "x %s y", "x%sy", "%s%s", "%s %s x", "my %s"):
            t = t.replace("%s", word)
            for defs in starts():
                for end in ends():
                    yield {"s": ("T", "E"), "text": t, "where": "act", "startdefs": defs, "end": end}
    for start in ("startEvent",) + blocks.ACTS:                    # a process of one element
        for defs in (starts() if start == "startEvent" else ((),)):
            for t in ("begin", "", "a,b"):
                yield {"s": (), "start": start, "startdefs": defs, "text": t, "where": "act"}
    for t in texts():
        yield {"s": PAIR, "text": t, "where": "act"}
        yield {"s": PAIR, "text": t, "where": "act", "start": "task", "acts": ("subProcess", "userTask")}
        if t:
            yield {"s": PAIR, "text": t, "where": "flow", "style": ["name"]}
            if t.strip():
                yield {"s": PAIR, "text": t, "where": "flow", "style": ["expr"]}
    for n in (1, 2, 3):
        for ops in history.graphs(n, True, 1):
            yield {"ops": ops}
    yield {"ops": []}
    yield {"ops": [["new"]]}


def starts():
    yield ()
    for d in model.DEFS["startEvent"]:
        yield ((d, "d1"),)


def ends():
    yield ()
    for d in model.DEFS["endEvent"]:
        yield ((d, "d2"),)


def texts():
    for t in docs.TEXTS + lexicon.words():
        yield t
    for t in ("a,b", ",", "\"", "a\"b", "\"q\"", "a\nb", "\n\n", ";", "'", "\t", "#", "yes", "else", ",,\"\n"):
        yield t


def variant(s, k):
    return {"s": s, "gates": [blocks.GATES[k % 3], blocks.GATES[(k // 3) % 3]],
            "style": [STYLES[k % 5], STYLES[(k // 5) % 5]], "acts": ["task"] if k % 4 else list(blocks.ACTS),
            "perm": "reversed" if k % 7 == 0 else None}


def run(case, ctx):
    p = ctx.dir()
    if "ops" in case:
        return refuse(case, ctx, p)
    doc, want = blocks.build(case)
    d = lib.load(model.serialize(doc), p + "in.bpmn")
    got = lib.export_csv(d, p + "out/", "t.csv").decode("utf-8")
    table = list(csv.reader(io.StringIO(got, newline="")))
    if table[:1] != [HEADER]:
        fail("header differs", table[:1])
    if table[1:] != [HEADER][1:] + want:
        fail("rows differ from the reference", *["got %r, expected %r" % (a, b) for a, b in itertools.zip_longest(
            table[1:], want) if a != b][:8])
    same("files written", os.listdir(p + "out"), ["t.csv"])
    ctx.step(len(want))
    ctx.trace()
    ctx.state(got)
    ctx.outcome("%d rows" % len(want))


def refuse(case, ctx, p):
    d = lib.BpmnDiagramGraph()
    history.play(d, case["ops"])
    n = sum(not a["incoming"] for _, a in d.get_nodes())
    if n == 1:
        return
    with open(p + "old.csv", "w") as f:
        f.write("old")
    for name in ("new.csv", "old.csv"):
        try:
            d.export_csv_file(p, name)
        except exc.BpmnPythonError:
            pass
        else:
            fail("a diagram with %d start nodes was exported" % n)
        ctx.step()
    same("files", sorted(os.listdir(p)), ["old.csv"])
    same("old file", lib.slurp(p + "old.csv"), b"old")
    ctx.trace()
    ctx.state(repr(case))
    ctx.outcome("refused")
