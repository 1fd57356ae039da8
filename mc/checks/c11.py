# coding=utf-8
"""C11: CSV import builds the process its order labels describe."""
import csv
import itertools

from mc import docs, lexicon, lib, tables
from mc.core import fail, same
from mc.tables import CONDS2, CONDS3, items, row, rows, split

RULE = ("every table structure with up to the given number of rows (nested splits of 1-3 branches, branches that merge, "
        "terminate or go to any other row), every assignment from the condition alphabet to small structures, every task / "
        "sub-process assignment, every order of the rows of small tables, label padding, quoting, line ends, text alphabet in "
        "every cell, and larger tables (numbers up to 121, 26 branches, nesting 6); imported by the code and compared with the "
        "process derived from the structure")
BOUND = {"quick": "up to 5 rows after the start (up to 7 without goto rows), nesting 2, plus the larger tables",
         "thorough": "up to 7 rows after the start (8 without goto rows), nesting 3, at most 50 / 4 target combinations per "
                     "structure with 6 / 7 rows, plus the larger tables"}
ASSUMPTIONS = ["order labels are unique, activities do not start with 'goto' unless they are goto rows, splits directly "
               "follow a row, at most 26 branches, no two flows with the same ends are asked for"]

CHECK = ("T", ("S", ("T",), ("T",)), "T", "E")


def gotos(its, limit):
    """All assignments of targets to the goto rows."""
    g = tables.goto_rows(its)
    t = tables.targets(its)
    if not g:
        yield []
        return
    for n, combo in enumerate(itertools.product(t, repeat=len(g))):
        if n >= limit:
            return
        yield list(combo)




def cond_at(k):
    def f(i, n):
        if n == 2:
            return CONDS2[(k + 5 * i) % len(CONDS2)]
        if n == 3:
            return CONDS3[(k + 2 * i) % len(CONDS3)]
        return ["c%d" % k if k % 3 == 0 else ""] * n if n == 1 else ["" if k % 2 else "c%d" % j for j in range(n)]
    return f


def cases(tier):
    k = 0
    plan = ([(n, 2, "TEG", 200) for n in range(1, 6)] + [(6, 2, "TE", 1), (7, 2, "TE", 1)] if tier == "quick" else
            [(n, 3, "TEG", 2000) for n in range(1, 6)] + [(6, 3, "TEG", 50), (7, 2, "TEG", 4), (7, 3, "TE", 1),
                                                         (8, 3, "TE", 1)])
    for n, depth, ends, limit in plan:
        for s in tables.shapes(n, depth, (1, 2, 3), ends):
            if not tables.closed(s):
                continue
            k += 1
            for g in gotos(items(s, one=k % 2 == 0), limit):
                yield {"s": s, "c": k, "one": k % 2 == 0, "g": g, "kinds": "TP" if k % 5 == 0 else "T"}
    for s in tables.sizes():
        for c in (0, 1, 3):
            yield {"s": s, "c": c, "one": c == 1, "g": [], "kinds": "TP" if c else "T"}
    # conditions
    for s in (CHECK, ("T", ("S", ("T", "T"), ("E",)), "E"), ("T", ("S", ("E",), ("E",))), (("S", ("T",), ("T",)), "E"),
              ("T", ("S", ("T", ("S", ("T",), ("T",)), "T"), ("T",)), "T", "E"),
              ("T", ("S", ("T",), ("T", ("S", ("T",), ("T",)))), "T", "E")):
        for c in range(len(CONDS2)):
            for one in (True, False):
                yield {"s": s, "c": c, "one": one, "g": [], "kinds": "T"}
    for c in range(len(CONDS3)):
        yield {"s": ("T", ("S", ("T",), ("T",), ("T",)), "T", "E"), "c": c, "one": False, "g": [], "kinds": "T"}
    for c in range(len(CONDS2)):
        yield {"s": ("T", ("S", ("T",), ("G",)), "T", "E"), "c": c, "one": True, "g": ["1"], "kinds": "T"}
        yield {"s": ("T", ("S", ("E",), ("G",))), "c": c, "one": True, "g": ["1"], "kinds": "T"}
    # kinds of activities
    for kinds in itertools.product("TP", repeat=5):
        yield {"s": ("T", ("S", ("T", "T"), ("T",)), "T", "E"), "c": 1, "one": True, "g": [], "kinds": "".join(kinds)}
    # notation
    small = [CHECK, ("T", "T", "T", "E"), ("T", ("S", ("T", "T"), ("E",)), "E"), ("T", ("S", ("E",), ("E",))),
             ("T", ("S", ("T",), ("T",), ("T",)), "E")]
    for s in small:
        n = len(rows(items(s)))
        perms = list(itertools.permutations(range(n)))
        if tier == "quick":
            perms = perms if n <= 5 else perms[::7]
        for order in perms:
            yield {"s": s, "c": 1, "one": True, "g": [], "kinds": "T", "order": list(order)}
    deep = ("T", ("S", ("T", ("S", ("T",), ("T",)), "T"), ("T", "T")), "T", ("S", ("T",), ("E",)), "E")
    for s in tables.sizes() + [deep]:
        n = len(rows(items(s)))
        for order in ([n - 1 - i for i in range(n)], [(i + n // 2) % n for i in range(n)],
                      sorted(range(n), key=lambda i: str(i)), sorted(range(n), key=lambda i: (i % 3, i))):
            yield {"s": s, "c": 1, "one": False, "g": [], "kinds": "TP", "order": order}
    for s in small + [deep, tables.sizes()[3]]:
        for pad in ([" %s"], ["%s "], ["  %s  "], ["%s", " %s", "%s  "], ["\t%s"]):
            for q in (csv.QUOTE_MINIMAL, csv.QUOTE_ALL):
                yield {"s": s, "c": 1, "one": True, "g": [], "kinds": "T", "pad": pad, "q": q}
        for q in (csv.QUOTE_MINIMAL, csv.QUOTE_ALL, csv.QUOTE_NONNUMERIC):
            for eol in ("\n", "\r\n"):
                for tail in (True, False):
                    yield {"s": s, "c": 3, "one": True, "g": [], "kinds": "T", "q": q, "eol": eol, "tail": tail}
    for word in ("goto %s", "GOTO %s", "Goto %s", "goto  %s", "goto %s ", "goto\t%s"):
        for t in ("0", "1", "2b", "3"):
            yield {"s": ("T", ("S", ("G",), ("T",)), "T", "E"), "c": 1, "one": True, "g": [t], "kinds": "T",
                   "word": word}
            yield {"s": ("T", ("S", ("T", "G"), ("T",)), "T", "E"), "c": 1, "one": True, "g": [t], "kinds": "T",
                   "word": word}
    for text in texts():
        yield {"s": CHECK, "c": 1, "one": True, "g": [], "kinds": "TP", "name": text}
        if text.strip():
            yield {"s": CHECK, "c": 0, "one": True, "g": [], "kinds": "T", "cond": text}
        yield {"s": CHECK, "c": 1, "one": True, "g": [], "kinds": "T", "who": text}
    three = ("T", ("S", ("T",), ("T",), ("T",)), "T", "E")
    for w in WORDS + [w for w in lexicon.words() if w.strip()]:
        for o in ("", "other", "yes", "no", "else", w):
            for pair in ([w, o], [o, w]):
                yield {"s": CHECK, "c": 0, "one": True, "g": [], "kinds": "T", "conds": pair}
        for trio in ([w, "x", "y"], ["x", "y", w], [w, "", ""], ["x", w, "else"], ["yes", "no", w]):
            yield {"s": three, "c": 0, "one": False, "g": [], "kinds": "T", "conds": trio}
    # conditions on rows that do not start a branch
    for i in range(5):
        yield {"s": CHECK, "c": 1, "one": True, "g": [], "kinds": "T", "at": i}


WORDS = ["otherwise", "default", "true", "false", "ok", "always", "never", "not", "and", "or", "Else", "ELSE", "y", "n",
         "YES", "NO", "elseif", "else?", "yes!", "no.", "true ", "done", "x > 1 else"]


def texts():
    for t in docs.TEXTS + lexicon.words():
        if "\r" not in t and not t.lower().startswith("goto"):
            yield t
    for t in ("NA", "nan", "null", "None", "N/A", "1", "007", "1.0", "1e5", "True", "yes", "no", "else", "-", "#x", "; y",
              "a\"b", "\"", "\"quoted\"", "a,b", ",", "'", "a\nb", " lead", "trail ", "1,5", "2a", "0", "inf", "2020-01-01",
              "got", "to goto 1"):
        yield t


def build(case):
    def conds(i, n):
        cs = cond_at(case["c"])(i, n)
        return cs
    its = items(tables_shape(case["s"]), conds, case["kinds"], case["one"])
    for g, t in zip(tables.goto_rows(its), case["g"]):
        g["to"] = t
        if "word" in case:
            g["n"] = case["word"]
    all_rows = [it for _, it in tables.label(its)]
    if "name" in case:
        for it in all_rows:
            it["n"] = case["name"]
    if "cond" in case:
        its[2]["b"][0][0]["c"] = case["cond"]
        its[2]["b"][1][0]["c"] = "other"
    if "conds" in case:
        for b, c in zip(its[2]["b"], case["conds"]):
            b[0]["c"] = c
    if "who" in case:
        for it in all_rows:
            it["w"] = case["who"]
    if "at" in case:
        all_rows[case["at"]]["c"] = "special"
    return its


def text_of(case):
    """The file of a case."""
    text = tables.write(rows(build(case)), case.get("q", csv.QUOTE_MINIMAL), case.get("eol", "\n"), case.get("order"),
                        case.get("pad"))
    return text if case.get("tail", True) else text[:-len(case["eol"])]


def tables_shape(s):
    return tuple(tables_shape(x) if isinstance(x, (list, tuple)) else x for x in s)


def check(d, nodes, flows):
    got = {}
    for n, a in d.get_nodes():
        if n in got:
            fail("node %s listed twice" % n)
        got[n] = (a["type"], a["node_name"])
        same("id of node %s" % n, a["id"], n)
        same("process of node %s" % n, a["process"], "process_1")
    same("nodes", got, nodes)
    gotf = {}
    for u, v, a in d.get_flows():
        if (u, v) in gotf:
            fail("flow %s -> %s listed twice" % (u, v))
        c = a.get("conditionExpression")
        gotf[(u, v)] = c["conditionExpression"] if c else ""
        same("ends of flow %s" % a["id"], (a["sourceRef"], a["targetRef"]), (u, v))
        same("process of flow %s" % a["id"], a["process"], "process_1")
    same("flows", gotf, flows)
    ids = {a["id"]: (u, v) for u, v, a in d.get_flows()}
    if len(ids) != len(flows):
        fail("flow ids are not unique")
    for n, a in d.get_nodes():
        same("incoming of %s" % n, sorted(ids.get(i, i) for i in a["incoming"]), sorted(e for e in flows if e[1] == n))
        same("outgoing of %s" % n, sorted(ids.get(i, i) for i in a["outgoing"]), sorted(e for e in flows if e[0] == n))
    same("flow records", {i: (r["sourceRef"], r["targetRef"]) for i, r in d.sequence_flows.items()}, ids)
    same("processes", list(d.process_elements), ["process_1"])


def run(case, ctx):
    its = build(case)
    try:
        nodes, flows = tables.reference(its)
    except tables.Parallel:
        ctx.outcome("outside the model: two flows with the same ends")
        return
    text = text_of(case)
    d = lib.load_csv(text, ctx.dir() + "t.csv")
    check(d, nodes, flows)
    ctx.step(len(nodes) + len(flows))
    ctx.trace()
    ctx.state(text)
    ctx.outcome("%d gateways" % sum(t.endswith("Gateway") for t, _ in nodes.values()))
