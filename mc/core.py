# coding=utf-8
"""Bounded exhaustive explorer: enumerates the cases of a check, runs each on the real code, compares with the oracle.

A check module (mc/checks/<id>.py) provides

  LEVEL, RULE, ASSUMPTIONS
  cases(tier)      -> iterator over JSON-able case descriptors (deterministic, simplest first)
  run(case, ctx)   -> runs the case on the code in /repo; raises on any disagreement

Every exception that leaves run() - Violation or anything the code under test raised - counts as a violation: on the
unchanged tree there is none.  Cases are dealt to worker processes by index; the violation reported is the one with the
smallest index.

What the interpreter itself leaves open - the iteration order of sets (hash seed), whether assert statements run, the
locale's encoding - is explored too: after the cases of a check, fixed subsets of them (every STRIDE-th, and those with text that matters
there) run again in separate interpreters, one per entry of ENVIRONMENTS.
"""
import importlib
import json
import multiprocessing
import os
import pickle
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, "evidence")
CPU_LIMIT = 60          # CPU seconds one case may use (a case normally takes milliseconds)
ENVIRONMENTS = {          # name -> (interpreter options, environment variables)
    "hash seed 1": ([], {"PYTHONHASHSEED": "1"}),
    "hash seed 2": ([], {"PYTHONHASHSEED": "2"}),
    "hash seed 3": ([], {"PYTHONHASHSEED": "3"}),
    "without asserts": (["-O"], {}),
    "ASCII locale": ([], {"PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "LC_ALL": "C", "LANG": "C"}),
}
STRIDE = 30             # share of the cases that is repeated in each of these environments
PARTS = 4
WALL_LIMIT = 400        # wall-clock seconds without any progress of a worker


class Violation(Exception):
    """The code under test disagrees with the oracle."""


class Hang(BaseException):
    """The code under test did not come back."""


class Ctx(object):
    """What a case may use: scratch directory, counters."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.transitions = 0
        self.states = set()
        self.traces = 0
        self.outcomes = {}
        self.n = 0

    def step(self, n=1):
        """n operations of the code under test were executed and compared."""
        self.transitions += n

    def state(self, key):
        """A distinct state (or input) was reached."""
        self.states.add(hash(key) if not isinstance(key, int) else key)

    def trace(self, n=1):
        """n complete behaviours were replayed on the implementation."""
        self.traces += n

    def outcome(self, key):
        self.outcomes[key] = self.outcomes.get(key, 0) + 1

    def dir(self):
        """A fresh directory (with trailing slash) for this case."""
        self.n += 1
        path = os.path.join(self.scratch, "d%d" % self.n) + os.sep
        os.makedirs(path)
        return path

    def clear(self):
        for name in os.listdir(self.scratch):
            path = os.path.join(self.scratch, name)
            if os.path.isdir(path) and not os.path.islink(path):
                shutil.rmtree(path, ignore_errors=True)
            else:
                os.unlink(path)


def fail(msg, *detail):
    raise Violation(msg + "".join("\n  " + (d if isinstance(d, str) else repr(d)) for d in detail))


def forked(f):
    """Runs f in a fork; returns its value or raises what it raised as Violation text."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                out = ("ok", f())
            except BaseException as e:
                out = ("bad", "%s" % e if type(e).__name__ == "Violation" else traceback.format_exc(limit=-8))
            with os.fdopen(w, "wb") as h:
                pickle.dump(out, h)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as h:
        data = h.read()
    os.waitpid(pid, 0)
    if not data:
        fail("the process running the case died")
    kind, val = pickle.loads(data)
    if kind == "bad":
        fail(val)
    return val


def same(what, got, want):
    if got != want:
        fail("%s differs from the reference" % what, *diff(got, want))


def diff(got, want, path=""):
    """Human-readable differences of two nested values."""
    out = []
    if isinstance(got, dict) and isinstance(want, dict):
        for k in sorted(set(got) | set(want), key=str):
            if k not in want:
                out.append("%s/%s: unexpected %r" % (path, k, got[k]))
            elif k not in got:
                out.append("%s/%s: missing, expected %r" % (path, k, want[k]))
            elif got[k] != want[k]:
                out.extend(diff(got[k], want[k], "%s/%s" % (path, k)))
    else:
        out.append("%s: got %r, expected %r" % (path, got, want))
    return out[:12]


def _alarm(signum, frame):
    raise Hang("no result after %d CPU seconds" % CPU_LIMIT)


def _limits():
    signal.signal(signal.SIGPROF, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def all_cases(mod, tier):
    for case in mod.cases(tier):
        yield case
    for k, env in enumerate(ENVIRONMENTS):
        for part in range(PARTS):
            yield {"env": env, "part": part, "tier": tier, "offset": 7 * k + 1}


def non_ascii(env, case):
    """Cases worth running with an ASCII locale."""
    if env != "ASCII locale" or not isinstance(case, dict):
        return False
    if case.get("f") == "text" and "text" in case:
        from mc import docs
        return max(docs.TEXTS[case["text"]] or " ") > "\x7f"
    return "\\u" in json.dumps(case, default=str)


def env_cases(mod, spec):
    """The cases repeated in one environment (one part of them)."""
    stride = getattr(mod, "ENV_STRIDE", STRIDE)
    pick = getattr(mod, "env_pick", non_ascii)
    n = 0
    for i, case in enumerate(mod.cases(spec["tier"])):
        if i % stride == spec["offset"] % stride or pick(spec["env"], case):
            n += 1
            if n % PARTS == spec["part"] and not (isinstance(case, dict) and "known" in case):
                yield case


def elsewhere(mod, spec, ctx, beat=None):
    """Runs the cases of an environment in an interpreter of its own."""
    options, env = ENVIRONMENTS[spec["env"]]
    out = os.path.join(ctx.scratch, "block.json")
    cmd = [sys.executable, "-W", "ignore"] + options + ["-m", "mc.core", "block", mod.__name__, json.dumps(spec), out]
    p = subprocess.Popen(cmd, cwd=VERIF, env=dict(os.environ, **env), stdout=subprocess.DEVNULL,
                         stderr=subprocess.PIPE, start_new_session=False)
    start = time.time()
    err = b""
    while True:
        try:
            err = p.communicate(timeout=5)[1]
            break
        except subprocess.TimeoutExpired:
            if beat:
                beat()
            if time.time() - start > 3000:
                p.kill()
                return "no result after 3000 seconds (%s)" % spec["env"]
    if not os.path.exists(out):
        return "with %s the run died (exit code %s): %s" % (spec["env"], p.returncode, err.decode("utf-8", "replace")[-1500:])
    with open(out) as f:
        r = json.load(f)
    ctx.transitions += r["transitions"]
    ctx.traces += r["traces"]
    ctx.outcomes[spec["env"]] = ctx.outcomes.get(spec["env"], 0) + r["done"]
    if r["found"]:
        return "with %s: case %s\n%s" % (spec["env"], json.dumps(r["found"][0])[:1500], r["found"][1])
    return None


def block(modname, spec, out):
    """The other side of elsewhere()."""
    _limits()
    mod = importlib.import_module(modname)
    scratch = tempfile.mkdtemp(prefix="bpmnmc_")
    ctx = Ctx(scratch)
    found, done = None, 0
    try:
        for case in env_cases(mod, spec):
            msg = run_case(mod, case, ctx)
            ctx.clear()
            done += 1
            if msg is not None:
                found = [case, msg]
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    with open(out + ".tmp", "w") as f:
        json.dump(dict(found=found, done=done, transitions=ctx.transitions, traces=ctx.traces), f, default=str)
    os.replace(out + ".tmp", out)
    return 0


def run_case(mod, case, ctx, beat=None):
    """Returns None or a description of the violation."""
    if isinstance(case, dict) and "env" in case:
        return elsewhere(mod, case, ctx, beat)
    signal.setitimer(signal.ITIMER_PROF, getattr(mod, "CPU_LIMIT", CPU_LIMIT))
    try:
        mod.run(case, ctx)
        return None
    except Violation as e:
        return "%s" % e
    except Hang as e:
        return "hang: %s" % e
    except MemoryError:
        return "the code under test ran out of memory"
    except KeyboardInterrupt:
        raise
    except BaseException:  # whatever the code under test throws, SystemExit included
        return "exception: " + traceback.format_exc(limit=-6)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _worker(modname, tier, w, n, conn, stop, progress, pulse, deadline):
    try:
        _limits()
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        mod = importlib.import_module(modname)
        scratch = tempfile.mkdtemp(prefix="bpmnmc_")
        conn.send(("scratch", scratch))
        ctx = Ctx(scratch)
        done = 0
        samples = []
        found = None
        known = []
        complete = True
        for idx, case in enumerate(all_cases(mod, tier)):
            if idx % n != w:
                continue
            if idx >= stop.value:
                break
            if time.time() > deadline:
                complete = False
                break
            progress[w] = idx
            msg = run_case(mod, case, ctx, lambda: pulse.__setitem__(w, pulse[w] + 1))
            done += 1
            ctx.clear()
            if len(samples) < 1 or (len(samples) < 2 and done > 20):
                samples.append(case)
            if msg is not None:
                key = case.get("known") if isinstance(case, dict) else None
                if key is not None and key in known_findings():
                    known.append(key)
                    continue
                with stop.get_lock():
                    if idx < stop.value:
                        stop.value = idx
                found = (idx, case, msg)
                break
        shutil.rmtree(scratch, ignore_errors=True)
        conn.send(("result", dict(done=done, transitions=ctx.transitions, states=ctx.states, traces=ctx.traces,
                                  outcomes=ctx.outcomes, samples=samples, found=found, known=known,
                                  complete=complete)))
        conn.close()
    except BaseException:
        try:
            conn.send(("error", traceback.format_exc()))
        except BaseException:
            pass
        os._exit(3)
    os._exit(0)


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        return {k["key"]: k for k in json.load(f)["known"]}


def explore(prop, mod, tier, budget):
    nproc = getattr(mod, "NPROC", None) or min(8, os.cpu_count() or 1)
    mp = multiprocessing.get_context("fork")
    stop = mp.Value("q", 1 << 60)
    progress = mp.Array("q", [-1] * nproc, lock=False)
    pulse = mp.Array("q", [0] * nproc, lock=False)
    deadline = time.time() + budget
    procs = []
    for w in range(nproc):
        a, b = mp.Pipe(False)
        p = mp.Process(target=_worker, args=(mod.__name__, tier, w, nproc, b, stop, progress, pulse,
                                              deadline))
        p.start()
        b.close()
        procs.append([p, a, None, None, time.time(), -1])   # process, pipe, result, scratch, last progress, index
    broken = []
    while any(x[2] is None for x in procs):
        multiprocessing.connection.wait([x[1] for x in procs if x[2] is None], timeout=5)
        for w, x in enumerate(procs):
            if x[2] is not None:
                continue
            p, a = x[0], x[1]
            try:
                while a.poll(0):
                    kind, val = a.recv()
                    if kind == "scratch":
                        x[3] = val
                    elif kind == "result":
                        x[2] = val
                        break
                    else:
                        x[2] = {}
                        broken.append((progress[w], "worker failed: " + val))
                        break
            except (EOFError, OSError):
                x[2] = {}
                p.join()
                broken.append((progress[w], "the process running this case died (exit code %s)" % p.exitcode))
            if x[2] is None:
                if (progress[w], pulse[w]) != x[5]:
                    x[4], x[5] = time.time(), (progress[w], pulse[w])
                elif time.time() - x[4] > WALL_LIMIT:
                    p.kill()
                    x[2] = {}
                    broken.append((progress[w], "no result after %d seconds" % WALL_LIMIT))
            if x[2] is not None and x[3]:
                shutil.rmtree(x[3], ignore_errors=True)
    for x in procs:
        x[0].join(10)
        if x[0].is_alive():
            x[0].kill()
    res = [x[2] for x in procs if x[2]]
    found = [r["found"] for r in res if r["found"]]
    for idx, msg in broken:
        case = None
        for i, c in enumerate(all_cases(mod, tier)):
            if i == idx:
                case = c
                break
        found.append((idx, case, msg))
    states = set()
    outcomes = {}
    for r in res:
        states |= r["states"]
        for k, v in r["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + v
    return dict(found=sorted(found, key=lambda f: f[0]), states=len(states), outcomes=outcomes,
                done=sum(r["done"] for r in res), transitions=sum(r["transitions"] for r in res),
                traces=sum(r["traces"] for r in res), known=sorted(set(sum([r["known"] for r in res], []))),
                samples=sum([r["samples"] for r in res], [])[:4],
                complete=all(r["complete"] for r in res) and not found and not broken)


def write_evidence(prop, mod, tier, res, wall, violations):
    os.makedirs(EVIDENCE, exist_ok=True)
    samples = [json.loads(json.dumps(s, default=str)) for s in res["samples"]]
    level = getattr(mod, "LEVEL", "model_checking")
    cov = dict(rule=mod.RULE, samples=samples, exhaustive=bool(res["complete"]), cases=res["done"],
               bound=getattr(mod, "BOUND", {}).get(tier, ""), outcomes={str(k): v for k, v in sorted(
                   res["outcomes"].items(), key=str)[:60]}, known_findings_met=res["known"])
    if level == "model_checking":
        cov.update(states=res["states"], transitions=res["transitions"], traces_validated_against_impl=res["traces"])
    else:
        cov.update(evaluations=res["transitions"], distinct_nontrivial=res["states"])
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "0") or 0), level=level, coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=violations)
    path = os.path.join(EVIDENCE, prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    os.replace(path + ".tmp", path)


def report(prop, case, msg, idx, tier):
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, prop + ".replay.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, tier=tier, index=idx, case=case, message=msg), f, indent=1, default=str)
    print("case: %s" % json.dumps(case, default=str)[:2000])
    print(msg[:6000])
    print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()


def check_import(prop, mod_name, tier):
    """The library must import from /repo; a failure is a violation, not an error of the check."""
    try:
        import bpmn_python.bpmn_diagram_rep as rep
        if not os.path.abspath(rep.__file__).startswith("/repo/"):
            print("harness error: library imported from %s" % rep.__file__)
            sys.exit(2)
        return importlib.import_module(mod_name)
    except SystemExit:
        raise
    except BaseException:
        report(prop, None, "the library cannot be imported: " + traceback.format_exc(), 0, tier)
        sys.exit(1)


def main(argv):
    if argv[0] == "replay":
        with open(argv[1]) as f:
            rec = json.load(f)
        mod = check_import(rec["property"], "mc.checks." + rec["property"].lower(), "quick")
        _limits()
        scratch = tempfile.mkdtemp(prefix="bpmnmc_")
        msg = run_case(mod, rec["case"], Ctx(scratch))
        shutil.rmtree(scratch, ignore_errors=True)
        print(msg or "the case passes")
        return 1 if msg else 0
    if argv[0] == "block":
        return block(argv[1], json.loads(argv[2]), argv[3])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    start = time.time()
    mod = check_import(prop, "mc.checks." + prop.lower(), tier)
    budget = getattr(mod, "BUDGET", {}).get(tier, 700 if tier == "quick" else 3000)
    res = explore(prop, mod, tier, budget)
    wall = time.time() - start
    write_evidence(prop, mod, tier, res, wall, len(res["found"]))
    for key in res["known"]:
        print("KNOWN-FINDING: property=%s %s" % (prop, known_findings()[key]["what"]))
    print("%s %s: %d cases, %d states, %d transitions, %d traces, %d outcomes, exhaustive=%s, %.1f s" % (
        prop, tier, res["done"], res["states"], res["transitions"], res["traces"], len(res["outcomes"]),
        res["complete"], wall))
    if res["found"]:
        idx, case, msg = res["found"][0]
        report(prop, case, msg, idx, tier)
        return 1
    return 0


if __name__ == "__main__":
    sys.modules["mc.core"] = sys.modules["__main__"]
    sys.exit(main(sys.argv[1:]))
