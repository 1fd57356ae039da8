# coding=utf-8
"""Process tables (CSV): structure, notation and the process they describe.

A table is a sequence of items; an item is
  {"k": "T" | "P" | "E" | "G", "c": condition, "n": name or None, "to": path of the target (G)}   one row
  {"k": "S", "b": [sequence, ...], "one": [True/False per branch]}    a split, one sequence per branch
T task, P sub-process, E end (terminated), G goto.  Row 0 (the start event) is implicit: {"k": "0"}.
The reference process is derived from this structure, not from the labels.
"""
import csv
import io
import itertools
import string

from mc import lexicon

HEADER = ["Order", "Activity", "Condition", "Who", "Subprocess", "Terminated"]


def row(k="T", c="", n=None, to=None):
    r = {"k": k}
    if c:
        r["c"] = c
    if n is not None:
        r["n"] = n
    if to is not None:
        r["to"] = to
    return r


def split(*branches, **kw):
    return {"k": "S", "b": list(branches), "one": kw.get("one", [False] * len(branches))}


# ---------------------------------------------------------------- labels and rows

def label(items):
    """Attaches labels: returns list of (label, item) of all rows in table order."""
    out = []

    def go(seq, prefix, number):
        for it in seq:
            if it["k"] == "S":
                for i, b in enumerate(it["b"]):
                    p = "%s%d%s" % (prefix, number, string.ascii_lowercase[i])
                    if len(b) == 1 and b[0]["k"] != "S" and it["one"][i]:
                        it["b"][i][0]["l"] = p
                        out.append((p, b[0]))
                    else:
                        go(b, p, 1)
            else:
                it["l"] = "%s%d" % (prefix, number)
                out.append((it["l"], it))
            number += 1
    go(items, "", 0)
    return out


def activity(lab, it):
    if it["k"] == "G":
        return it.get("n", "goto %s") % it["to"]
    return it["n"] if "n" in it else "act " + lab


def rows(items):
    out = []
    for lab, it in label(items):
        out.append([lab, activity(lab, it), it.get("c", ""), it.get("w", ""), "yes" if it["k"] == "P" else "",
                    "yes" if it["k"] == "E" else ""])
    return out


def write(table, quoting=csv.QUOTE_MINIMAL, eol="\n", order=None, pad=None):
    """The CSV text."""
    f = io.StringIO()
    w = csv.writer(f, lineterminator=eol, quoting=quoting)
    w.writerow(HEADER)
    table = [list(r) for r in table]
    if pad:
        for i, r in enumerate(table):
            r[0] = pad[i % len(pad)] % r[0]
    for i in (order if order is not None else range(len(table))):
        w.writerow(table[i])
    return f.getvalue()


# ---------------------------------------------------------------- the reference process

class Parallel(Exception):
    """The table asks for two flows with the same ends (outside the model)."""


KIND = {"0": "startEvent", "T": "task", "P": "subProcess", "E": "endEvent"}


def gateway_type(conds):
    conds = [c.strip() for c in conds]
    if len(conds) == 2 and (sorted(conds) == ["no", "yes"] or "else" in conds):
        return "exclusiveGateway"
    return "parallelGateway" if not any(conds) else "inclusiveGateway"


def reference(items):
    """(nodes {id: (type, name)}, flows {(source, target): condition})"""
    label(items)
    nodes, flows, gotos, joins = {}, {}, [], {}

    def edge(a, b, c=""):
        if (a, b) in flows:
            raise Parallel()
        flows[(a, b)] = c

    def first(seq):
        return seq[0]

    def go(seq, cont):
        """cont: (row that continues after the enclosing split, type of that split)"""
        for i, it in enumerate(seq):
            nxt = seq[i + 1] if i + 1 < len(seq) else None
            if it["k"] == "S":
                prev = seq[i - 1]["l"]
                typ = gateway_type([first(b).get("c", "") for b in it["b"]])
                g = prev + "_split"
                nodes[g] = (typ, "")
                edge(prev, g)
                for b in it["b"]:
                    edge(g, first(b)["l"], first(b).get("c", ""))
                    go(b, (nxt, typ) if nxt else cont)
                continue
            nodes[it["l"]] = (KIND.get(it["k"], "goto"), activity(it["l"], it))
            if it["k"] == "G":
                gotos.append(it)
            elif it["k"] == "E":
                pass
            elif nxt is None:
                c, typ = cont
                j = c["l"] + "_join"
                if j not in nodes:
                    nodes[j] = (typ, "")
                    edge(j, c["l"], c.get("c", ""))
                edge(it["l"], j)
            elif nxt["k"] != "S":
                edge(it["l"], nxt["l"], nxt.get("c", ""))
    go(items, None)
    for g in gotos:
        (a, b), = [e for e in flows if e[1] == g["l"]]
        del flows[(a, b)]
        del nodes[g["l"]]
        edge(a, g["to"], g.get("c", ""))
    again = True
    while again:
        again = False
        for n in sorted(nodes):
            if nodes[n][0].endswith("Gateway"):
                ins = [e for e in flows if e[1] == n]
                outs = [e for e in flows if e[0] == n]
                if len(ins) == 1 and len(outs) == 1:
                    c = flows.pop(outs[0])
                    del flows[ins[0]]
                    del nodes[n]
                    edge(ins[0][0], outs[0][1], c)
                    again = True
                    break
    return nodes, flows


# ---------------------------------------------------------------- enumeration of structures

def shapes(n, depth, branches=(1, 2, 3), ends="TEG"):
    """All item sequences (as nested tuples) with n rows after an activity row; depth = allowed nesting of splits."""
    return list(_rest(n, depth, True, tuple(branches), ends))


_memo = {}


def _rest(n, depth, after_act, branches, ends):
    key = (n, depth, after_act, branches, ends)
    if key not in _memo:
        _memo[key] = list(_gen(n, depth, after_act, branches, ends))
    return _memo[key]


def _gen(n, depth, after_act, branches, ends):
    if n == 0:
        yield ()
        return
    if n == 1:
        for e in ends:
            yield (e,)
    else:
        for r in _rest(n - 1, depth, True, branches, ends):
            yield ("T",) + r
    if after_act and depth > 0:
        for m in range(1, n + 1):
            for k in branches:
                for bs in _branches(m, k, depth - 1, branches, ends):
                    if n - m == 0:
                        yield (("S",) + bs,)
                    elif any(merging(b) for b in bs):
                        for r in _rest(n - m, depth, False, branches, ends):
                            yield (("S",) + bs,) + r


def _branches(m, k, depth, branches, ends):
    """Ordered lists of k branches with m rows in total."""
    if k == 1:
        for b in _branch(m, depth, branches, ends):
            yield (b,)
        return
    for a in range(1, m - k + 2):
        for b in _branch(a, depth, branches, ends):
            for r in _branches(m - a, k - 1, depth, branches, ends):
                yield (b,) + r


def _branch(m, depth, branches, ends):
    """A branch starts with an activity (or is a single end or goto row)."""
    if m == 1:
        return [(e,) for e in ends]
    return [("T",) + r for r in _rest(m - 1, depth, True, branches, ends)]


def merging(seq):
    """Does some path of the sequence end without end event or goto?"""
    last = seq[-1]
    if isinstance(last, tuple):
        return any(merging(b) for b in last[1:])
    return last == "T"


def closed(seq):
    """No path of the whole table ends in the void."""
    return not merging(seq)


def items(shape, conds=(), kinds="T", one=True, start=True):
    """Builds the table of a shape. conds: function(split index, number of branches) -> conditions."""
    count = [0, 0]

    def go(s):
        out = []
        for x in s:
            if isinstance(x, tuple):
                k = count[1]
                count[1] += 1
                bs = [go(b) for b in x[1:]]
                cs = conds(k, len(bs)) if callable(conds) else [""] * len(bs)
                for b, c in zip(bs, cs):
                    if c:
                        b[0]["c"] = c
                flags = [one if isinstance(one, bool) else bool((one >> (k + i)) & 1) for i in range(len(bs))]
                out.append({"k": "S", "b": bs, "one": flags})
            else:
                r = row(x)
                if x == "T":
                    r["k"] = kinds[count[0] % len(kinds)]
                    count[0] += 1
                out.append(r)
        return out
    return ([{"k": "0"}] if start else []) + go(shape)


def goto_rows(its):
    return [it for _, it in label(its) if it["k"] == "G"]


def targets(its):
    return [lab for lab, it in label(its) if it["k"] != "G"]


CONDS2 = [["", ""], ["yes", "no"], ["no", "yes"], ["x > 1", "else"], ["else", "x > 1"], ["x > 1", "x < 1"],
          ["x", ""], ["", "x"], ["yes", "else"], ["else", "no"], ["yes", "yes"], ["yes", "maybe"], [" yes ", "no "],
          ["Yes", "No"], ["else", ""], ["", "else "], ["else if", "x"], ["else", "else"]]
CONDS3 = [["", "", ""], ["yes", "no", "else"], ["x", "y", "else"], ["x", "y", "z"], ["x", "", ""], ["", "", "x"],
          ["yes", "no", ""], ["else", "", ""], ["yes", "no", "no"]]


def lengths(top, more):
    return sorted(set(list(range(1, top + 1)) + list(more) + [n for n in lexicon.numbers() if n]))


def sizes():
    """Larger tables: long sequences (two- and three-digit numbers), many branches, deep nesting."""
    out = []
    for n in lengths(30, (50, 51, 63, 64, 65, 98, 99, 100, 101, 120)):
        out.append(tuple("T" * n) + ("E",))
    for n in lengths(15, (20, 25, 26, 27, 98, 99)):
        out.append(tuple("T" * n) + (("S", ("T",), ("T", "T")), "T", "E"))
    for n in lengths(13, (20, 26)):
        out.append(("T", ("S", tuple("T" * n), ("T",)), "T", "E"))
        out.append(("T", ("S", tuple("T" * n) + (("S", ("T",), ("T",)), "T"), ("T",)), "T", "E"))
        out.append(("T", ("S", tuple("T" * n) + (("S", ("T",), ("T",)),), ("T",)), "T", "E"))
    for k in range(2, 27):
        out.append(("T", ("S",) + (("T",),) * k, "E"))
        out.append(("T", ("S",) + (("T", "T"),) * k, "E"))
        out.append(("T", ("S",) + (("T",),) * (k - 1) + (("E",),), "E") if k > 2 else ("T", ("S", ("T",), ("E",)), "E"))
    for depth in range(1, 7):
        s = ("T",)
        t = ("T",)
        for i in range(depth):
            s = ("T", ("S", s, ("T",)), "T")
            t = ("T", ("S", ("T",), t))
        out.append(s + ("E",))
        out.append(t + ("T", "E"))
    for k in range(1, 12):
        out.append((("T", ("S", ("T",), ("T",))) * k) + ("T", "E"))
        out.append((("T", ("S", ("T",), ("T",), ("E",))) * k) + ("T", "E"))
    return out


def load(case, path):
    """The diagram imported from the table of a case of C11."""
    from mc import lib
    from mc.checks import c11
    return lib.load_csv(c11.text_of(case), path)


def some(tier):
    """Cases of C11 without two flows between the same ends: one in seven of the structures, all of the texts."""
    from mc.checks import c11
    n = 0
    for case in c11.cases("quick"):
        n += 1
        plain = "name" not in case and "cond" not in case
        if plain and (n % (3 if tier == "thorough" else 13) or "order" in case or "pad" in case or "q" in case):
            continue
        try:
            reference(c11.build(case))
        except Parallel:
            continue
        yield case
