# coding=utf-8
"""C22: DOT and PNG drawings hold exactly the nodes and directed flows."""
import itertools
import re

from mc import facts, layouts, lib, model, readonly
from mc.core import fail, same

RULE = ("for every directed graph up to the bound (loops and opposite flows included) with every typing in the bound and every "
        "document of the document families with plain-word ids and names, the DOT "
        "file written and the DOT source received by the Graphviz program (a stand-in that returns its input as the picture) "
        "are parsed by an independent tokenizer and compared with the nodes and flows of the diagram")
BOUND = {"quick": "all graphs up to 3 nodes (with all typings by 16 node types up to 2 nodes and 5 patterns for 3), all names of "
                  "nodes and flows from {none, one word, other word} up to 2 nodes, structured graphs",
         "thorough": "as quick with all graphs of 4 nodes and all typings of 3 nodes"}
ASSUMPTIONS = ["names and identifiers are plain words (letters, digits, underscore, not starting with a digit); DOT keywords excluded",
               "the Graphviz program is replaced by a stand-in that returns its input", "visualize_diagram (on-screen) is not covered"]
TOKEN = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|"((?:[^"\\]|\\.)*)"|(->|--|[\[\]{}=;,:])|([^\s"\[\]{}=;,:<>-]+|-?[0-9.]+)|(<)', re.S)


def tokens(text):
    """[kind, text] with kind 'id' or 'op'; HTML strings in <...> are one id."""
    out, i = [], 0
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m:
            fail("not a DOT token at %r" % text[i:i + 40])
        i = m.end()
        if m.group(1) is not None:
            out.append(("id", m.group(1).replace('\\"', '"')))
        elif m.group(2):
            out.append(("op", m.group(2)))
        elif m.group(3):
            out.append(("id", m.group(3)))
        elif m.group(4):
            depth, j = 1, i
            while depth:
                depth += {"<": 1, ">": -1}.get(text[j], 0)
                j += 1
            out.append(("id", text[i - 1:j]))
            i = j
    return out


def parse(text):
    """(directed, nodes {id: attributes}, edges [(from, to, attributes)]); raises on anything unexpected."""
    t = tokens(text)
    pos = [0]

    def peek():
        return t[pos[0]] if pos[0] < len(t) else ("end", "")

    def take(kind=None, val=None):
        k = peek()
        if (kind and k[0] != kind) or (val and k[1] != val):
            fail("DOT syntax: expected %s %s, got %r" % (kind, val, k), text)
        pos[0] += 1
        return k[1]
    if peek()[1] == "strict":
        take()
    directed = take("id") == "digraph"
    if peek()[0] == "id":
        take()
    take("op", "{")
    nodes, edges = {}, []
    count = {}

    def attrs():
        out = {}
        while peek() == ("op", "["):
            take()
            while peek() != ("op", "]"):
                k = take("id")
                take("op", "=")
                out[k] = take("id")
                while peek() in (("op", ","), ("op", ";")):
                    take()
            take("op", "]")
        return out
    while peek() != ("op", "}"):
        if peek() in (("op", ";"), ("op", ",")):
            take()
            continue
        a = take("id")
        if peek() == ("op", "="):
            take()
            take("id")
            continue
        path = [a]
        while peek() in (("op", "->"), ("op", "--")):
            take()
            path.append(take("id"))
        at = attrs()
        if len(path) > 1:
            for x, y in zip(path, path[1:]):
                edges.append((x, y, at))
        elif a in ("node", "edge", "graph"):
            continue
        else:
            count[a] = count.get(a, 0) + 1
            nodes.setdefault(a, {}).update(at)
    take("op", "}")
    if peek()[0] != "end":
        fail("DOT file goes on after the graph", text)
    for n, c in count.items():
        if c > 1:
            fail("node %s appears %d times" % (n, c), text)
    return directed, nodes, edges


def cases(tier):
    for n in (1, 2):
        for m in range(1 << (n * n)):
            for t in itertools.product("t" + layouts.API[1:] + "".join(layouts.XML), repeat=n):
                yield {"n": n, "e": m, "t": "".join(t)}
    for m in range(1 << 9):
        for t in (("ttt", "txe", "sxt", "aot", "xtp") if tier == "quick" else map("".join, itertools.product("txseap", repeat=3))):
            yield {"n": 3, "e": m, "t": "".join(t)}
        for c in layouts.variants({"n": 3, "e": m, "t": "txs"}):
            if "ids" not in c or tier == "thorough" or m % 4 == 0:
                yield c
    words = ["", "Work", "check_2"]
    for ts in itertools.product("txsu", repeat=2):
        for ns in itertools.product(words, repeat=2):
            for es in ([], [(0, 1)], [(1, 0)], [(0, 1), (1, 0)], [(0, 0), (0, 1)]):
                for fs in itertools.product(words, repeat=len(es)):
                    yield {"ts": "".join(ts), "names": ns, "es": es, "flows": fs}
    for c in itertools.chain(layouts.structured_cases(), layouts.type_cases(), layouts.word_cases(facts.plain_word)):
        yield c
    for c in facts.cases(tier):
        yield c
    if tier == "thorough":
        for m in range(1 << 16):
            yield {"n": 4, "e": m, "t": "txse"}


def make(case, path):
    if "ts" in case:
        doc = model.new_doc()
        nodes = [model.node(layouts.TYPE[t], "id_%d" % i, n) for i, (t, n) in enumerate(zip(case["ts"], case["names"]))]
        flows = [model.flow("f_%d" % i, "id_%d" % a, "id_%d" % b, n)
                 for i, ((a, b), n) in enumerate(zip(case["es"], case["flows"]))]
        doc["processes"].append(model.connect(model.process("p1", nodes, flows)))
        return lib.load(model.serialize(doc), path)



def run(case, ctx):
    p = ctx.dir()
    if "f" in case:
        f = facts.Facts(case)
        words = [n for n in f.nodes] + [n for n in f.names.values() if n] + [
            x["name"] for x in f.exp["flows"].values() if x["name"]]
        if not all(map(facts.plain_word, words)) or f.parallel:
            return
        d = f.load(p + "in.bpmn")
        code = {"task": "t", "exclusiveGateway": "x"}
        nodes = {i: (code.get(f.types[i], f.types[i]), f.names[i]) for i in f.nodes}
        flows = sorted((x["source"], x["target"], x["name"]) for x in f.exp["flows"].values())
    elif "ts" in case:
        d = make(case, p + "in.bpmn")
        nodes = {"id_%d" % i: (t, n) for i, (t, n) in enumerate(zip(case["ts"], case["names"]))}
        flows = sorted(("id_%d" % a, "id_%d" % b, n) for (a, b), n in zip(case["es"], case["flows"]))
    else:
        nodes = {layouts.nid(case, i): (t, layouts.name(case, i)) for i, t in enumerate(layouts.types(case))}
        flows = [(layouts.nid(case, a), layouts.nid(case, b), "") for a, b in layouts.edges(case)]
        d = layouts.build(case, p + "in.bpmn", (lambda d, k: look(d, p, nodes, sorted(flows[:k]), ctx, ("DOT file",)))
                          if case.get("live") else None)
        flows.sort()
    look(d, p, nodes, flows, ctx)
    ctx.state(repr(case))
    ctx.outcome(len(flows))
    ctx.trace()


def look(d, p, nodes, flows, ctx, which=("DOT file", "picture")):
    for what in which:
        text = readonly.dot(d, p + "a") if what == "DOT file" else readonly.png(d, p + "b")
        directed, gn, ge = parse(text.decode("utf-8"))
        if not directed:
            fail("the %s is not a directed graph" % what)
        same("nodes in the " + what, sorted(gn), sorted(nodes))
        same("edges in the " + what, sorted(e[:2] for e in ge), [f[:2] for f in flows])
        if what == "picture":
            for n, (t, name) in nodes.items():
                same("label of %s" % n, gn[n].get("label", ""), name)
                shape = gn[n].get("shape", "")
                want = {"t": ("box", "rounded"), "x": ("diamond", None)}.get(t)
                if want:
                    same("shape of %s (%s)" % (n, t), shape, want[0])
                    if want[1]:
                        same("style of %s (%s)" % (n, t), gn[n].get("style", ""), want[1])
                elif shape in ("box", "diamond"):
                    fail("%s (%s) is drawn as a %s" % (n, layouts.TYPE.get(t, t), shape))
            same("edge labels", sorted((a, b, at.get("label", "")) for a, b, at in ge), flows)
        ctx.step()
