# coding=utf-8
"""Block-structured processes: enumeration, construction and the CSV rows that describe them.

A sequence is a tuple of "T" (activity), "E" (end event), "X" (activity without successor) and ("S", branch, ...);
an empty branch leads straight to the join.
"""
import itertools
import string

from mc import lexicon
from mc.model import connect, flow, new_doc, node, process

GATES = ("exclusiveGateway", "inclusiveGateway", "parallelGateway")
ACTS = ("task", "userTask", "subProcess", "serviceTask", "manualTask")
_memo = {}


def merges(seq):
    """Does the sequence reach its end?"""
    if not seq:
        return True
    last = seq[-1]
    return last == "T" if isinstance(last, str) else len([b for b in last[1:] if merges(b)]) >= 2


def ok_split(s, nxt, top):
    """Is the split closed by its own join, or does it end completely?"""
    m = [b for b in s[1:] if merges(b)]
    empty = [b for b in s[1:] if not b]
    if len(m) == 0:
        return nxt is None
    if len(m) == 1 or len(empty) > 1 or len(empty) == len(m):
        return False
    if nxt is None:
        return not top and not empty
    return not (empty and isinstance(nxt, tuple))


def seqs(n, depth, ways, top=False, empty=False):
    key = (n, depth, ways, top, empty)
    if key not in _memo:
        _memo[key] = list(_seqs(n, depth, ways, top))
    return _memo[key]


def _seqs(n, depth, ways, top):
    if n == 0:
        yield ()
        return
    if n == 1:
        for e in ("EX" if top else "TEX"):
            yield (e,)
    else:
        for r in seqs(n - 1, depth, ways, top):
            yield ("T",) + r
    if depth:
        for m in range(2, n + 1):
            for k in ways:
                for bs in _branches(m, k, depth - 1, ways):
                    s = ("S",) + bs
                    if m == n:
                        if ok_split(s, None, top):
                            yield (s,)
                    else:
                        for r in seqs(n - m, depth, ways, top):
                            if ok_split(s, r[0], top):
                                yield (s,) + r


def _branches(m, k, depth, ways):
    if k == 0:
        if m == 0:
            yield ()
        return
    for a in range(1, m - k + 2):
        opts = list(seqs(a, depth, ways))
        if a == 1:
            opts = opts + [()]      # an empty branch is one row
        for b in opts:
            for r in _branches(m - a, k - 1, depth, ways):
                yield (b,) + r


def build(case):
    """Document and expected rows (without header)."""
    nodes, flows, rows = [], [], []
    gates = case.get("gates", GATES)
    acts = case.get("acts", ("task",))
    styles = case.get("style", ["name"])
    count = {"g": 0, "a": 0, "f": 0}
    text = case.get("text")

    def add(typ, name, **kw):
        nid = "n%d" % len(nodes)
        nodes.append(node(typ, nid, name, **kw))
        return nid

    def link(pending, b):
        for f in pending:
            f["targetRef"] = b

    def label(typ, name, defs):
        if typ == "startEvent" and defs and defs[0][0] in ("message", "timer"):
            return "%s %s" % (defs[0][0], name)
        if typ == "endEvent" and defs and defs[0][0] == "message":
            return "message " + name
        return name

    def emit(typ, lab, cond, pending, defs=()):
        name = text if text is not None and case.get("where", "act") == "act" else "%s at %s" % (typ, lab)
        nid = add(typ, name, defs=defs)
        link(pending, nid)
        rows.append([lab, label(typ, name, defs), cond, "", "yes" if typ == "subProcess" else "",
                     "yes" if typ == "endEvent" else ""])
        return nid

    def out(nid, name=None, cond=None, default=False):
        f = flow("f%d" % len(flows), nid, None, name, cond)
        flows.append(f)
        if default:
            [n for n in nodes if n["id"] == nid][0]["attrs"]["default"] = f["id"]
        return [f]

    def go(seq, prefix, number, cond, pending):
        """pending: flows waiting for their target; returns those left at the end."""
        for it in seq:
            lab = "%s%d" % (prefix, number)
            if isinstance(it, tuple):
                typ = gates[count["g"] % len(gates)]
                style = styles[count["g"] % len(styles)]
                count["g"] += 1
                g = add(typ, "gate")
                link(pending, g)
                rest = []
                gate = count["g"]
                outs = []
                for i in range(len(it) - 1):
                    name, expr, default, cell = branch_label(typ, style, i, len(it) - 1, gate)
                    outs.append((cell, out(g, name, expr, default)))
                for i, b in enumerate(it[1:]):
                    cell, o = outs[i]
                    p = "%s%s" % (lab, string.ascii_lowercase[i])
                    if not b:
                        rows.append([p + "1", "goto %s%d" % (prefix, number + 1), cell, "", "", ""])
                        rest += [("empty", o)]
                    else:
                        rest += [("", go(b, p, 1, cell, o))]
                ends = [r for _, r in rest if r]
                pending = []
                if ends:
                    j = add(typ, "")
                    for r in ends:
                        link(r, j)
                    pending = out(j)
            elif it == "E":
                defs = case.get("end", ())
                emit("endEvent", lab, cond, pending, defs)
                pending = []
            else:
                typ = acts[count["a"] % len(acts)]
                count["a"] += 1
                nid = emit(typ, lab, cond, pending)
                pending = [] if it == "X" else out(nid)
            number += 1
            cond = ""
        return pending

    def branch_label(typ, style, i, n, gate):
        """name, condition, default flow?, expected cell"""
        word = text if text is not None and case.get("where") == "flow" else "c%d of %d" % (i, n)
        default = False
        name, expr, cell = None, None, ""
        if style == "name":
            name = cell = word
        elif style == "expr":
            expr, cell = ("ce%d_%d" % (gate, i), word), word
        elif style == "both":
            name, expr, cell = "name " + word, ("ce%d_%d" % (gate, i), word), "name " + word
        elif style == "default":
            default = i == n - 1
            name = cell = word
        elif style == "first default":
            default = i == 0
            name, cell = (None, "") if default else (word, word)
        if typ == "parallelGateway":
            cell, default = "", False
        if default:
            cell = "else"
        return name, expr, default, cell

    start = case.get("start", "startEvent")
    name = text if text is not None and case.get("where", "act") == "act" else "begin"
    s = add(start, name, defs=case.get("startdefs", ()))
    rows.append(["0", label(start, name, case.get("startdefs", ())), "", "", "yes" if start == "subProcess" else "", ""])
    if case["s"]:
        go(shape(case["s"]), "", 1, "", out(s))
    d = new_doc()
    perm = case.get("perm")
    if perm == "reversed":
        nodes.reverse()
    d["processes"].append(connect(process("p1", nodes, flows)))
    return d, rows


def shape(s):
    return tuple(shape(x) if isinstance(x, (list, tuple)) else x for x in s)


def lengths(top, more):
    return sorted(set(list(range(1, top + 1)) + list(more) + [n for n in lexicon.numbers() if n]))


def sizes():
    out = []
    for n in lengths(40, (50, 51, 63, 64, 65, 98, 99, 100, 101, 127, 128, 129)):
        out.append(("T",) * n + ("E",))
        out.append(("T",) * n + (("S", ("T",), ("T", "T")), "T", "E"))
    for n in lengths(15, (20, 26, 27, 30)):
        out.append(("T", ("S", ("T",) * n, ("T",)), "E"))
        out.append(("T", ("S", ("T",) * n + (("S", ("T",), ("T",)),), ("T",)), "E"))
    for k in range(2, 27):
        out.append(("T", ("S",) + (("T",),) * k, "E"))
        out.append(("T", ("S",) + (("T", "T"),) * (k - 1) + ((),), "T", "E"))
        out.append((("S",) + (("E",),) * k,))
    for depth in range(1, 8):
        a, b, c = ("T",), ("T",), ("T",)
        for i in range(depth):
            a = ("T", ("S", a, ("T",)), "T")
            b = (("S", ("T",), b),)
            c = (("S", c, ("T",)), "T")
        out += [a + ("E",), b + ("T", "E"), c + ("E",)]
    for k in range(1, 13):
        out.append((("S", ("T",), ("T",)),) * k + ("E",))
        out.append((("S", ("T",), ("E",), ("T",)), "T") * k + ("E",))
    return out
