# coding=utf-8
"""C13: CSV import, export and import again give the same process."""
import csv
import itertools

from mc import lib, tables
from mc.checks import c11
from mc.core import fail, same
from mc.tables import items, rows

RULE = ("every table structure up to the given number of rows without goto rows in which each split directly follows a row and "
        "is closed by its own continuation, reached by at least two branches (or ends completely), with conditions, kinds, label style, row order and texts "
        "varied; imported, exported and imported again by the code; both diagrams compared with the process derived from the "
        "structure and the second export with the first")
BOUND = {"quick": "up to 8 rows after the start, nesting 2, plus larger tables",
         "thorough": "up to 10 rows after the start, nesting 3, plus larger tables"}
ASSUMPTIONS = ["as for C11, and conditions are only given on first rows of branches; splits have at least two branches"]


def own(shape):
    """Every split has its own continuation or ends completely."""
    for i, x in enumerate(shape):
        if isinstance(x, tuple):
            if i == len(shape) - 1 and tables.merging((x,)):
                return False
            if not all(own(b) for b in x[1:]):
                return False
    return True


def cases(tier):
    k = 0
    plan = ([(n, 2, (2, 3)) for n in range(1, 9)] if tier == "quick" else
            [(n, 3, (2, 3, 4)) for n in range(1, 11)])
    for n, depth, br in plan:
        for s in tables.shapes(n, depth, br, "TE"):
            if tables.closed(s) and own(s) and two_way(s):
                k += 1
                yield {"s": s, "c": k, "one": k % 2 == 0, "g": [], "kinds": "TP" if k % 5 == 0 else "T"}
    for n in (150, 520):
        c = {"s": ("T",) * n + ("E",), "c": 0, "one": False, "g": [], "kinds": "T"}
        yield c if n == 150 else dict(c, known="C13-long-sequence")
    for s in tables.sizes():
        if own(s) and two_way(s):
            for c in (0, 1, 3):
                yield {"s": s, "c": c, "one": c == 1, "g": [], "kinds": "TP" if c else "T"}
                n = len(rows(items(s)))
                yield {"s": s, "c": c, "one": c == 1, "g": [], "kinds": "T", "order": [n - 1 - i for i in range(n)]}
    for c in c11.cases("quick"):
        if c["g"] or "at" in c or not own(c["s"]) or single(c["s"]) or not two_way(c["s"]):
            continue
        if set(c) - {"s", "c", "one", "g", "kinds"} or c["s"] == c11.CHECK or len(c["kinds"]) == 5:
            yield c


def single(shape):
    return any(isinstance(x, tuple) and (len(x) == 2 or any(single(b) for b in x[1:])) for x in shape)


def two_way(shape):
    """At least two branches of every continued split reach the continuation."""
    for i, x in enumerate(shape):
        if isinstance(x, tuple):
            if not all(two_way(b) for b in x[1:]):
                return False
            if i + 1 < len(shape) and sum(tables.merging(b) for b in x[1:]) < 2:
                return False
    return True


def run(case, ctx):
    its = c11.build(case)
    want = tables.reference(its)
    text = tables.write(rows(its), case.get("q", csv.QUOTE_MINIMAL), case.get("eol", "\n"), case.get("order"),
                        case.get("pad"))
    p = ctx.dir()
    d = lib.load_csv(text, p + "t.csv")
    c11.check(d, *want)
    one = lib.export_csv(d, p + "x/", "a.csv")
    d2 = lib.load_file_csv(p + "x/a.csv")
    plain = c11.build(dict(case, one=False))
    if "name" not in case:      # names made from labels stay those of the first table
        for (_, a), (_, b) in zip(tables.label(its), tables.label(plain)):
            b["n"] = tables.activity(a["l"], a)
    c11.check(d2, *tables.reference(plain))
    two = lib.export_csv(d2, p + "x/", "b.csv")
    if one != two:
        fail("the second export differs from the first", one.decode("utf-8"), two.decode("utf-8"))
    ctx.step(4)
    ctx.trace()
    ctx.state(text)
    ctx.outcome("%d gateways" % sum(t.endswith("Gateway") for t, _ in want[0].values()))
