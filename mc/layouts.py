# coding=utf-8
"""Diagrams for layout and path metrics: all small directed graphs with typed nodes, and larger structured ones."""
import itertools

from mc import lexicon, lib, model

API = "tpsexoa"
XML = {"u": "userTask", "v": "serviceTask", "m": "manualTask", "c": "complexGateway", "b": "eventBasedGateway",
       "i": "intermediateCatchEvent", "j": "intermediateThrowEvent", "y": "boundaryEvent", "d": "dataObject"}
TYPE = dict({"t": "task", "p": "subProcess", "s": "startEvent", "e": "endEvent", "x": "exclusiveGateway",
             "o": "inclusiveGateway", "a": "parallelGateway"}, **XML)
PATTERNS = ["tttttt", "xttatp", "stxtxe", "sxtaoe", "txotax", "etspxa"]


def edges(case):
    """Edges in order of addition."""
    if "g" in case:
        es = STRUCTURED[case["g"]][case["k"]]
    elif "l" in case:
        es = [tuple(e) for e in case["l"]]
    else:
        n, m = case["n"], case["e"]
        es = [(i, j) for i in range(n) for j in range(n) if (m >> (i * n + j)) & 1]
    if case.get("rev"):
        es = es[::-1]
    return es


def size(case):
    if "n" in case:
        return case["n"]
    return max(max(e) for e in edges(case)) + 1


def rooted(n, es):
    """Is every node reachable from a node without incoming edges?"""
    succ = [[] for _ in range(n)]
    indeg = [0] * n
    for a, b in es:
        succ[a].append(b)
        indeg[b] += 1
    todo = [i for i in range(n) if not indeg[i]]
    seen = set(todo)
    while todo:
        for b in succ[todo.pop()]:
            if b not in seen:
                seen.add(b)
                todo.append(b)
    return len(seen) == n


def types(case):
    n = size(case)
    t = case.get("t", "t")
    return (t * n)[:n]


IDS = ("n", "down", "prefix", "prefix down", "case")


def nid(case, i):
    """The id of node i: n0.. in order, or one of the schemes in which ids are easily confused or sort otherwise."""
    s, n = case.get("ids", "n"), size(case)
    if i == 1 and "wid" in case:
        return case["wid"]
    if s == "n":
        return "n%d" % i
    if s == "down":
        return "n%d" % (n - i)
    if s == "case":
        return "".join(c.upper() if i >> k & 1 else c for k, c in enumerate("abcde"))
    return "z" * (i + 1 if s == "prefix" else n - i)


def number(case, ident):
    for i in range(size(case)):
        if nid(case, i) == ident:
            return i


def name(case, i):
    if "word" in case:
        return case["word"] if i != 2 else "N2"
    return "same" if case.get("names") else "N%d" % i


def build(case, path=None, each=None):
    """The diagram; nodes with ids nid(case, i).  each(diagram, flows) is called after every flow added."""
    n, es, ts = size(case), edges(case), types(case)
    if all(t in API for t in ts):
        d = lib.BpmnDiagramGraph()
        d.create_new_diagram_graph("D")
        ps = [d.add_process_to_diagram() for _ in range(case.get("procs", 1))]
        add = {"t": d.add_task_to_diagram, "p": d.add_subprocess_to_diagram, "s": d.add_start_event_to_diagram,
               "e": d.add_end_event_to_diagram, "x": d.add_exclusive_gateway_to_diagram,
               "o": d.add_inclusive_gateway_to_diagram, "a": d.add_parallel_gateway_to_diagram}
        scope = None
        for i in case.get("perm") or range(n):
            add[ts[i]](scope or ps[i % len(ps)], name(case, i), node_id=nid(case, i))
            if ts[i] == "p" and case.get("nested"):
                scope = nid(case, i)
        for k, (a, b) in enumerate(es):
            if each:
                each(d, k)
            d.add_sequence_flow_to_diagram(scope or ps[a % len(ps)], nid(case, a), nid(case, b))
        return d
    doc = model.new_doc()
    shape = {"x": "1", "y": "2", "width": "100", "height": "100"}
    nodes = [model.node(TYPE[t], nid(case, i), name(case, i), shape=dict(shape)) for i, t in enumerate(ts)]
    flows = [model.flow("f%d" % i, nid(case, a), nid(case, b)) for i, (a, b) in enumerate(es)]
    doc["processes"].append(model.connect(model.process("p1", nodes, flows)))
    return lib.load(model.serialize(doc), path)


def all_graphs(n, loops=True):
    """Edge masks of all graphs with n nodes in which all nodes are reachable from a start."""
    diag = sum(1 << (i * n + i) for i in range(n))
    for m in range(1 << (n * n)):
        if not loops and m & diag:
            continue
        if rooted(n, [(i, j) for i in range(n) for j in range(n) if (m >> (i * n + j)) & 1]):
            yield m


def tree_codes(n):
    """Parent lists of all rooted ordered forests on n nodes, parents before children."""
    return itertools.product(*[range(-1, i) for i in range(n)])


def _structured():
    out = {}
    out["chain"] = [[(i, i + 1) for i in range(n)] for n in list(range(5, 26)) + [30, 40, 51]]
    out["star"] = [[(0, i) for i in range(1, n)] for n in list(range(5, 27)) + [33, 51, 52]]
    out["diamond"] = [[(0, i) for i in range(1, n)] + [(i, n) for i in range(1, n)] for n in list(range(4, 17)) + [21, 27, 34]]
    out["nested"] = []
    for depth in range(1, 5):
        es, c = [], [0]

        def block(d):
            """returns (first, last)"""
            a = c[0]
            c[0] += 1
            if d == 0:
                return a, a
            f1, l1 = block(d - 1)
            f2, l2 = block(d - 1)
            z = c[0]
            c[0] += 1
            es.extend([(a, f1), (a, f2), (l1, z), (l2, z)])
            return a, z
        block(depth)
        out["nested"].append(es)
    out["series"] = []
    for k in range(1, 9):
        es = []
        for i in range(k):
            b = 4 * i
            es += [(b, b + 1), (b, b + 2), (b + 1, b + 3), (b + 2, b + 3), (b + 3, b + 4)]
        out["series"].append(es)
    out["merge"] = [[(i, n) for i in range(n)] for n in list(range(2, 14)) + [20, 26]]
    out["loops"] = []
    for n in range(4, 9):
        for back in range(1, n):
            for frm in range(back, n):
                out["loops"].append([(i, i + 1) for i in range(n)] + ([(frm, back)] if frm != back else [(frm, frm)]))
    out["ladder"] = [[(2 * i, 2 * i + 2) for i in range(k)] + [(2 * i + 1, 2 * i + 3) for i in range(k)] +
                     [(2 * i, 2 * i + 1) for i in range(k + 1)] for k in range(1, 6)]
    out["dense"] = [[(i, j) for i in range(n) for j in range(i + 1, n)] for n in range(4, 8)]
    out["parallel starts"] = [[(3 * i, 3 * i + 1) for i in range(k)] + [(3 * i + 1, 3 * i + 2) for i in range(k)]
                              for k in range(2, 7)]
    out["big"] = [[(0, i) for i in range(1, 61)] + [(i, 61) for i in range(1, 61)],
                  [(0, i) for i in range(1, 121)],
                  [(i, i + 1) for i in range(70)],
                  [(0, i) for i in range(1, 60)] + [(i, 59 + i) for i in range(1, 60)] + [(i, 119) for i in range(60, 119)],
                  [(i, 60) for i in range(60)] + [(60, 61)]]
    return out


STRUCTURED = _structured()


def structured_cases():
    for g in sorted(STRUCTURED):
        for k in range(len(STRUCTURED[g])):
            es = STRUCTURED[g][k]
            if not rooted(max(max(e) for e in es) + 1, es):
                continue
            for t in (PATTERNS if g != "big" else PATTERNS[1:4]):
                for rev in (False, True):
                    c = {"g": g, "k": k, "t": t}
                    if rev:
                        c["rev"] = True
                    yield c


def variants(c):
    """Live construction, ids and names that are easily confused, nesting."""
    yield dict(c, live=1)
    yield dict(c, live=1, rev=True)
    for s in IDS[1:]:
        yield dict(c, ids=s)
        yield dict(c, ids=s, names=1, rev=True)
    yield dict(c, names=1)
    yield dict(c, t="p" + c["t"][1:], nested=1)


DIAMOND = [(0, 1), (0, 2), (1, 3), (2, 3), (3, 4)]


def word_cases(plain=None):
    """A word of the source as name of all nodes but one, or as id of one node."""
    for w in lexicon.words():
        if plain is None or plain(w):
            yield {"n": 5, "l": DIAMOND, "t": "xtpat", "word": w}
            yield {"n": 5, "l": DIAMOND, "t": "sutxe", "word": w}
    for w in lexicon.idents():
        if plain is None or plain(w):
            yield {"n": 5, "l": DIAMOND, "t": "xtpat", "wid": w}
            yield {"n": 5, "l": DIAMOND, "t": "sxtut", "wid": w}


def type_cases():
    """Every pair of types as source and target of flows inside a row and between rows."""
    every = API + "".join(XML)
    for a in every:
        for b in every:
            yield {"l": [(0, 1), (0, 2), (0, 3)], "t": a + b * 3}
            yield {"l": [(0, 1), (0, 2), (1, 3), (2, 3), (3, 4)], "t": "x" + a + a + b + a}
            yield {"l": [(0, 1), (1, 2), (1, 3), (2, 1), (3, 4)], "t": a + b + a + b + "e"}


def small_cases(tier):
    """Graphs up to 3 nodes with all typings and orders, 4 nodes with typing patterns (thorough: 5 nodes)."""
    for n in (1, 2):
        for m in all_graphs(n):
            for t in itertools.product(API, repeat=n):
                yield {"n": n, "e": m, "t": "".join(t)}
    for m in all_graphs(3):
        for t in itertools.product("txse" if tier == "quick" else API, repeat=3):
            yield {"n": 3, "e": m, "t": "".join(t)}
        for perm in itertools.permutations(range(3)):
            for rev in (False, True):
                yield {"n": 3, "e": m, "t": "txs", "perm": perm, "rev": rev}
        yield {"n": 3, "e": m, "t": "txs", "procs": 2}
        for c in variants({"n": 3, "e": m, "t": "txa"}):
            yield c
    for i, m in enumerate(all_graphs(4)):
        for k, t in enumerate(PATTERNS):
            if tier == "thorough" or k in (0, 1 + i % (len(PATTERNS) - 1)):
                yield {"n": 4, "e": m, "t": t}
    for t in itertools.product("t" + "".join(XML), repeat=2):
        for l in ([(0, 1), (1, 2)], [(0, 1), (0, 2), (1, 3), (2, 3)], [(0, 1), (1, 2), (2, 1), (2, 3)]):
            yield {"l": l, "t": "s" + "".join(t) + "e"}
    for c in type_cases():
        yield c
    for c in word_cases():
        yield c
    for c in structured_cases():
        yield c
    if tier == "thorough":
        for n in (6, 7):
            for code in tree_codes(n):
                es = [(p, i) for i, p in enumerate(code) if p >= 0]
                yield {"n": n, "l": es, "t": PATTERNS[sum(code) % len(PATTERNS)]}
        for i, m in enumerate(all_graphs(5, False)):
            yield {"n": 5, "e": m, "t": PATTERNS[i % len(PATTERNS)]}
