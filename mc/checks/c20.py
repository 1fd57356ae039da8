# coding=utf-8
"""C20: an export replaces the whole file or reports failure."""
import itertools
import os
import sys

from mc import lib, model, readonly
from mc.core import fail, same

RULE = ("every export function on several diagrams with the write failing at every byte offset of the file (file size limit), "
        "with a full device, a file in place of a directory at every level, a directory in place of the file, dangling and "
        "cyclic links, too long names and missing permission; after each failure the diagram is compared and exported "
        "elsewhere; and every sequence of exports (short and long documents, failing ones in between) to the same name, into "
        "existing and missing directories (named with and without a trailing separator), with every other file compared; and exports next to files with all usual companion "
        "names (backup, temporary, ...) and next to every path the export was seen to touch (audit hook)")
BOUND = {"quick": "all offsets of files up to 3 KB, every 7th offset and all offsets around multiples of 1024 of larger files; all "
                  "sequences of 3 exports",
         "thorough": "all offsets of all files; all sequences of 4 exports"}
ASSUMPTIONS = ["the file system reports failed writes to the process"]
KINDS = ("xml", "nodi", "csv")
BLOCK = 64


def big(p):
    d = lib.BpmnDiagramGraph()
    d.create_new_diagram_graph("Big")
    pr = d.add_process_to_diagram("P")
    last, _ = d.add_start_event_to_diagram(pr, "s", node_id="s")
    for i in range(70):
        n, _ = d.add_task_to_diagram(pr, "Task number %d with a long name %s" % (i, "x" * 120), node_id="t%d" % i)
        d.add_sequence_flow_to_diagram(pr, last, n, "")
        last = n
    return d


def twin(name):
    def make(p):
        """Two diagrams whose documents have the same length and different content."""
        d = lib.BpmnDiagramGraph()
        d.create_new_diagram_graph("Twin")
        d.add_start_event_to_diagram(d.add_process_to_diagram("P"), name, node_id="s")
        return d
    return make


DIAGRAMS = dict(readonly.DIAGRAMS, big=big, twin1=twin("one"), twin2=twin("two"))
SMALL = ["process only", "one task", "csv", "conditional"]


def export(d, kind, path, name):
    {"xml": d.export_xml_file, "nodi": d.export_xml_file_no_di, "csv": d.export_csv_file}[kind](path, name)


_sizes = {}


def full(dname, kind, ctx):
    """The complete document, from an undisturbed export; None when there is none (CSV of an unsuitable diagram)."""
    p = ctx.dir()
    d = DIAGRAMS[dname](p)
    try:
        export(d, kind, p, "base")
    except Exception:
        return d, None
    return d, lib.slurp(p + "base")


def exportable(dname, kind):
    return kind != "csv" or dname not in ("process only", "rich", "unused", "new")


def cases(tier):
    names = SMALL + ["chain laid out", "rich", "big"]
    for dname in names:
        for kind in KINDS:
            if exportable(dname, kind):
                for b in range((64 if dname != "big" else 520)):
                    yield {"d": dname, "k": kind, "block": b, "all": tier == "thorough"}
    for dname in SMALL + ["rich", "chain"]:
        for kind in KINDS:
            if exportable(dname, kind):
                for f in FAULTS:
                    yield {"d": dname, "k": kind, "fault": f}
    steps = [("big", "xml"), ("one task", "xml"), ("one task", "nodi"), ("csv", "csv"), ("big", "csv"), ("fail", "xml"),
             ("fail", "csv")]
    twins = [(t, k) for t in ("twin1", "twin2") for k in KINDS]
    for n in (2, 3):
        for seq in itertools.product(twins, repeat=n):
            yield {"seq": seq, "levels": n % 3}
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for seq in itertools.product(steps, repeat=n):
            yield {"seq": seq, "levels": n % 3}
    for levels in range(4):
        for kind in KINDS:
            for existing in range(levels + 1):
                for bare in (False, True):
                    yield {"place": levels, "existing": existing, "k": kind, "bare": bare}
    for dname in SMALL + ["rich", "big"] if tier == "quick" else list(DIAGRAMS):
        for kind in KINDS:
            if exportable(dname, kind):
                for name in TARGETS:
                    for where in WHERE:
                        yield {"near": dname, "k": kind, "name": name, "where": where}


def after_failure(d, kind, before, want, p, what):
    now = readonly.raw(d)
    if now != before:
        same("diagram after a failed export (%s)" % what, now, before)
    if os.path.exists(p + "again/x"):
        os.unlink(p + "again/x")
    export(d, kind, p + "again/", "x")
    if lib.slurp(p + "again/x") != want:
        fail("export elsewhere after a failed export (%s) is not complete" % what)


def run(case, ctx):
    if "block" in case:
        offsets(case, ctx)
    elif "fault" in case:
        faults(case, ctx)
    elif "seq" in case:
        sequence(case, ctx)
    elif "near" in case:
        neighbours(case, ctx)
    else:
        places(case, ctx)
    ctx.trace()


def offsets(case, ctx):
    key = (case["d"], case["k"])
    if key in _sizes and case["block"] * BLOCK > _sizes[key]:
        return
    d, want = full(case["d"], case["k"], ctx)
    _sizes[key] = len(want)
    before = readonly.raw(d)
    p = ctx.dir()
    for limit in range(case["block"] * BLOCK, (case["block"] + 1) * BLOCK):
        if limit > len(want) + 1:
            return
        near = min(limit % 1024, -limit % 1024) <= 1 or limit >= len(want) - 2
        if not (case["all"] or len(want) <= 3000 or near or limit % 7 == 0):
            continue
        with open(p + "t", "wb") as f:
            f.write(b"old " * 10)
        with open(p + "other", "wb") as f:
            f.write(b"other")
        e = lib.limited(lambda: export(d, case["k"], p, "t"), limit)
        if limit < len(want):
            if e is None:
                fail("the file was cut at byte %d of %d and the export returned normally" % (limit, len(want)))
            after_failure(d, case["k"], before, want, p, "cut at byte %d" % limit)
        else:
            if e is not None:
                raise e
            if lib.slurp(p + "t") != want:
                fail("the file is not the complete document")
        same("another file", lib.slurp(p + "other"), b"other")
        ctx.step()
        ctx.state(repr((key, limit)))
    ctx.outcome("%s %s" % key)


def f_file_as_dir(p):
    open(p + "x", "w").close()
    return p + "x/", "out"


def f_file_in_path(p):
    open(p + "x", "w").close()
    return p + "x/y/z/", "out"


def f_dir_as_file(p):
    os.makedirs(p + "out/inner")
    return p, "out"


def f_empty_dir_as_file(p):
    os.makedirs(p + "out")
    return p, "out"


def f_dangling_dir(p):
    os.symlink(p + "nowhere", p + "link")
    return p + "link/", "out"


def f_loop(p):
    os.symlink(p + "b", p + "a")
    os.symlink(p + "a", p + "b")
    return p + "a/", "out"


def f_loop_file(p):
    os.symlink(p + "b", p + "a")
    os.symlink(p + "a", p + "b")
    return p, "a"


def f_dangling_file(p):
    os.symlink(p + "no/where", p + "a")
    return p, "a"


def f_long_name(p):
    return p, "n" * 300


def f_long_dir(p):
    return p + "n" * 300 + "/", "out"


def f_full(p):
    os.symlink("/dev/full", p + "full")
    return p, "full"


def f_missing_subdir(p):
    return p, "no/such/out"


def f_unwritable_dir(p):
    os.makedirs(p + "ro")
    os.chmod(p + "ro", 0o555)
    return p + "ro/", "out"


def f_unwritable_parent(p):
    os.makedirs(p + "ro")
    os.chmod(p + "ro", 0o555)
    return p + "ro/new/", "out"


def f_unwritable_file(p):
    os.makedirs(p + "d")
    with open(p + "d/out", "w") as f:
        f.write("old")
    os.chmod(p + "d/out", 0o444)
    os.chmod(p + "d", 0o555)
    return p + "d/", "out"


FAULTS = {f.__name__[2:]: f for f in (f_file_as_dir, f_file_in_path, f_dir_as_file, f_empty_dir_as_file, f_dangling_dir,
                                      f_loop, f_loop_file, f_dangling_file, f_long_name, f_long_dir, f_full,
                                      f_missing_subdir, f_unwritable_dir, f_unwritable_parent, f_unwritable_file)}


def faults(case, ctx):
    d, want = full(case["d"], case["k"], ctx)
    before = readonly.raw(d)
    p = ctx.dir()
    with open(p + "other", "wb") as f:
        f.write(b"other")
    directory, name = FAULTS[case["fault"]](p)
    drop = "unwritable" in case["fault"] and os.geteuid() == 0
    e = None
    if drop:
        os.chmod(ctx.scratch, 0o755)
        os.seteuid(65534)
    try:
        export(d, case["k"], directory, name)
    except Exception as x:
        e = x
    finally:
        if drop:
            os.seteuid(0)
            os.chmod(ctx.scratch, 0o700)
    if e is None:      # an implementation may get around the obstacle, but not write less than everything
        target = directory + name
        if not os.path.isfile(target) or lib.slurp(target) != want:
            fail("export into %s returned normally" % case["fault"])
    after_failure(d, case["k"], before, want, ctx.dir(), case["fault"])
    same("another file", lib.slurp(p + "other"), b"other")
    # the same export succeeds once the obstacle is out of the way
    q = ctx.dir()
    export(d, case["k"], q, "out")
    if lib.slurp(q + "out") != want:
        fail("export after the failure is not the complete document")
    ctx.step(3)
    ctx.state(repr(case))
    ctx.outcome("%s: %s" % (case["fault"], type(e).__name__))


def sequence(case, ctx):
    p = ctx.dir()
    target = p + "".join("l%d/" % i for i in range(case["levels"]))
    ds = {n: DIAGRAMS[n](ctx.dir()) for n in ("big", "one task", "csv", "twin1", "twin2")}
    with open(p + "other", "wb") as f:
        f.write(b"other")
    want = None
    for name, kind in case["seq"]:
        if name == "fail":
            try:        # a diagram without exactly one start cannot be written as CSV; XML runs into a size limit
                d = ds["big"] if kind == "xml" else lib.BpmnDiagramGraph()
                if kind == "csv":
                    d.export_csv_file(target, "out")
                    fail("CSV export of an empty diagram succeeded")
                e = lib.limited(lambda: d.export_xml_file(p + "side/", "f"), 10)
                if e is None:
                    fail("export cut at byte 10 returned normally")
            except Exception as e:
                if "succeeded" in str(e) or "returned" in str(e):
                    raise
        else:
            export(ds[name], kind, target, "out")
            q = ctx.dir()
            export(ds[name], kind, q, "fresh")
            want = lib.slurp(q + "fresh")
        if want is not None and lib.slurp(target + "out") != want:
            fail("after %r the file is not the last complete document" % (case["seq"],))
        ctx.step()
    same("another file", lib.slurp(p + "other"), b"other")
    if want is not None:
        same("files in the directory", sorted(x for x in os.listdir(target) if x != "side" and x != "other"), ["out"])
    ctx.state(repr(case))
    ctx.outcome("sequence of %d" % len(case["seq"]))


TARGETS = ["out.bpmn", "out", "out.tmp.xml", "a b.csv", "x" * 100, u"za\u017c\xf3.bpmn", "sub/out.bpmn", ".out", "out.bpmn~", "1"]
WHERE = ["absolute", "relative", "dot", "missing", "bare"]
_seen = None


def _audit(event, args):
    if _seen is not None and event in ("open", "os.rename", "os.remove", "os.rmdir", "os.link", "os.symlink", "os.truncate",
                                       "os.mkdir"):
        if event == "open" and not (isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
            return
        for a in args[:2] if event in ("os.rename", "os.link", "os.symlink") else args[:1]:
            if isinstance(a, bytes):
                a = os.fsdecode(a)
            if isinstance(a, str):
                _seen.append(os.path.abspath(a))


sys.addaudithook(_audit)


def watched(f):
    """Runs f; returns the exception or None, and the paths that were written, renamed or removed."""
    global _seen
    _seen = []
    try:
        f()
        e = None
    except Exception as x:
        e = x
    finally:
        paths, _seen = _seen, None
    return e, paths


def near_names(name):
    head, base = os.path.split(name)
    stem = base.rsplit(".", 1)[0] or "stem"
    out = [base + s for s in (".tmp", "~", ".bak", ".old", ".new", ".part", ".lock", ".1", ".swp")]
    out += [p + base for p in (".", "~", "tmp_", "#")] + [stem + s for s in (".tmp", ".bak", "", ".xml", ".csv", ".bpmn", "_1")]
    out += [base[:-1] or "b", base.upper(), base.lower(), "tmp", "temp", "." + base + ".tmp", "other"]
    return [os.path.join(head, n) for n in sorted(set(out)) if n != base and 0 < len(n)]


def neighbours(case, ctx):
    """No other file in the directory, or in the working directory, is touched - whatever its name."""
    if case["name"].encode("ascii", "replace").decode() != case["name"] and sys.getfilesystemencoding() != "utf-8":
        return
    d, want = full(case["near"], case["k"], ctx)
    extra = set()
    cwd = os.getcwd()
    for cut in (None, 50, len(want) - 1, None):
        for group in [near_names(case["name"])] + [[x] for x in sorted(extra)]:
            p, w = ctx.dir(), ctx.dir()
            sub = "" if case["where"] != "missing" else "new/dir/"
            t = p + sub
            if not sub:
                for n in group:
                    os.makedirs(os.path.dirname(t + n), exist_ok=True)
                    with open(t + n, "wb") as f:
                        f.write(b"keep " + n.encode("utf-8"))
            elif "/" in case["name"]:
                continue
            for n in ("out.bpmn", "out", "keep"):
                with open(w + n, "wb") as f:
                    f.write(b"working directory")
            before = listing(p), listing(w)
            if case["where"] in ("relative", "dot"):
                os.chdir(os.path.dirname(p[:-1]))
                there = os.path.basename(p[:-1]) + "/"
                if case["where"] == "dot":
                    there = "./" + there
            else:
                os.chdir(w)
                there = t if case["where"] != "bare" else t[:-1]
            try:
                go = lambda: export(d, case["k"], there, case["name"])
                if cut is None:
                    e, paths = watched(go)
                    if e is not None:
                        raise e
                else:
                    e, paths = watched(lambda: raise_it(lib.limited(go, cut)))
                    if e is None:
                        fail("the file was cut at byte %d of %d and the export returned normally" % (cut, len(want)))
            finally:
                os.chdir(cwd)
            now = listing(p), listing(w)
            target = sub + case["name"]
            if cut is None and now[0].get(target) != want:
                fail("the file is not the complete document")
            gone = [n for n, v in before[0].items() if n != target and now[0].get(n) != v]
            if gone:
                fail("an export to %r changed or removed %r" % (target, gone))
            if cut is None:
                same("files", sorted(now[0]), sorted(set(before[0]) | {target}))
            same("working directory", now[1], before[1])
            for x in paths:
                if x.startswith(p) and x != p + target and x + "/" != p and not os.path.isdir(x):
                    extra.add(os.path.relpath(x, t))
            ctx.step()
    ctx.state(repr(case))
    ctx.outcome("neighbours")


def raise_it(e):
    if e is not None:
        raise e


def listing(p):
    out = {}
    for base, _, fs in os.walk(p):
        for f in fs:
            out[os.path.relpath(os.path.join(base, f), p)] = lib.slurp(os.path.join(base, f))
    return out


def places(case, ctx):
    p = ctx.dir()
    levels = ["a%d" % i for i in range(case["place"])]
    if levels[:case["existing"]]:
        os.makedirs(p + "/".join(levels[:case["existing"]]))
    for x in range(case["existing"] + 1):
        with open(p + "/".join(levels[:x] + ["keep"]), "w") as f:
            f.write("keep %d" % x)
    target = p + "".join(x + "/" for x in levels)
    d = DIAGRAMS["chain laid out"](ctx.dir())
    q = ctx.dir()
    export(d, case["k"], q, "fresh")
    export(d, case["k"], target[:-1] if case["bare"] else target, "out.x")
    if lib.slurp(target + "out.x") != lib.slurp(q + "fresh"):
        fail("the file in a new directory differs")
    found = {}
    for base, _, fs in os.walk(p):
        for f in fs:
            found[os.path.relpath(os.path.join(base, f), p)] = lib.slurp(os.path.join(base, f))
    want = {"/".join(levels[:x] + ["keep"]): ("keep %d" % x).encode() for x in range(case["existing"] + 1)}
    want["/".join(levels + ["out.x"])] = lib.slurp(q + "fresh")
    same("files", found, want)
    ctx.step()
    ctx.state(repr(case))
    ctx.outcome("place")
