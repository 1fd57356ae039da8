# coding=utf-8
"""What a document of the document families contains, as plain numbers and lists (for the metrics and drawings)."""
import re

from mc import docs, lib, model

FAMS = ["nest", "process", "pool", "lane", "size", "alias", "flow", "geo", "ids", "words"]


def cases(tier, fams=FAMS):
    for c in docs.cases("quick", fams):
        if c["f"] == "alias" and tier == "quick" and c.get("ids") and c.get("k") not in ("node", "all"):
            continue
        yield c
    for c in docs.fam_dev("short"):
        if tier == "thorough" or len(c["set"]) < 2:
            yield c
    for c in docs.cases(tier, ["graph"]):
        if c["n"] < (3 if tier == "quick" else 4):
            yield c
    if tier == "thorough":
        for c in docs.cases("quick", ["node"]):
            yield c


class Facts(object):
    def __init__(self, case):
        self.doc = docs.build(case)
        self.exp = exp = model.expected(self.doc)
        self.nodes = list(exp["nodes"])
        self.types = {i: n["type"] for i, n in exp["nodes"].items()}
        self.names = {i: n.get("name", "") for i, n in exp["nodes"].items()}
        self.flows = [(f["source"], f["target"]) for f in exp["flows"].values()]
        self.tally = {}
        for t in self.types.values():
            self.tally[t] = self.tally.get(t, 0) + 1
        self.consistent = all(self._lists(i) for i in self.nodes)
        self.polys = None
        if all(len(f.get("waypoints") or []) > 0 for f in exp["flows"].values()):
            self.polys = [f["waypoints"] for f in exp["flows"].values()]
            if any(isinstance(v, str) for p in self.polys for w in p for v in w):
                self.polys = None
        self.parallel = len(set(self.flows)) < len(self.flows)

    def _lists(self, i):
        """The references listed under a node are exactly its flows."""
        n, fl = self.exp["nodes"][i], self.exp["flows"]
        return (sorted(n["outgoing"]) == sorted(k for k, f in fl.items() if f["source"] == i) and
                sorted(n["incoming"]) == sorted(k for k, f in fl.items() if f["target"] == i))

    def load(self, path):
        return lib.load(model.serialize(self.doc), path)


WORD = re.compile(r"^[A-Za-z_][A-Za-z0-9_]*$")
KEYWORDS = ("node", "edge", "graph", "digraph", "subgraph", "strict")


def plain_word(s):
    return bool(WORD.match(s)) and s.lower() not in KEYWORDS
