# coding=utf-8
"""Words and numbers that occur in the library's source, as further values of the input alphabets.

They only widen what is explored (a text or id equal to a word the code knows is treated like any other); whether a case
passes is decided by the behaviour of the code alone.
"""
import ast
import os
import re

import bpmn_python

_memo = {}
LIMIT = 600
XML_CHAR = re.compile(u"^[\t\n\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]*$")
NCNAME = re.compile(r"^[A-Za-z_][A-Za-z0-9_.-]*$")


def _read():
    if _memo:
        return
    words, ints = set(), set()
    for root, dirs, files in os.walk(os.path.dirname(os.path.abspath(bpmn_python.__file__))):
        for f in files:
            if not f.endswith(".py"):
                continue
            with open(os.path.join(root, f), encoding="utf-8") as h:
                tree = ast.parse(h.read())
            alone = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr)}
            for n in ast.walk(tree):
                if not isinstance(n, ast.Constant) or id(n) in alone:
                    continue
                v = n.value
                if isinstance(v, str) and 0 < len(v) <= 40 and XML_CHAR.match(v):
                    words.add(v)
                elif isinstance(v, int) and not isinstance(v, bool) and 2 <= v <= 60:
                    ints.add(v)
    words -= set(DULL)
    _memo["words"] = sorted(words)[:LIMIT]
    _memo["ints"] = sorted(ints)


# texts from which nothing new can be learnt
DULL = ()


def words():
    _read()
    return _memo["words"]


def idents():
    """Words that may be ids."""
    return [w for w in words() if NCNAME.match(w) and not w.endswith("_gui")]


def numbers():
    """The numbers in the source up to 60 and their neighbours."""
    _read()
    return sorted({m for n in _memo["ints"] for m in (n - 1, n, n + 1)})
