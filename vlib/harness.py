"""Property-based testing harness shared by all checks in /verif/checks.

A check module declares *sub-properties* with the ``sub`` decorator::

    @sub("roundtrip", strategy, quick=200, thorough=4000)
    def _(case):            # case: JSON-serialisable value drawn by Hypothesis
        ... exercise /repo ...
        assert observed == oracle

Every sub-property is searched by Hypothesis (generate + shrink) in its own
forked worker.  Any exception that leaves the body (an assertion, or the code
under test raising) is a violation; the shrunk case becomes the replay file.
``HarnessError`` marks a fault of the machinery itself and ends with exit 2.
"""
import contextlib
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")

# Only packages the repository's own interpreter lacks (hypothesis and its
# dependencies) resolve here: the directory is appended, never prepended.
for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)

import numpy as np  # noqa: E402
import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
import torch  # noqa: E402

torch.set_num_threads(1)
try:
    torch.set_num_interop_threads(1)
except RuntimeError:
    pass


class HarnessError(Exception):
    """The machinery, not the code under test, is at fault."""


class Hang(Exception):
    """One generated case did not finish within the per-case limit."""


class _Stop(BaseException):
    pass


CASE_LIMIT_S = 150
SHRINK_LIMIT_S = 30


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough, nontrivial, budget, shards):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.nontrivial = nontrivial
        self.budget = budget
        self.shards = shards


_REG = []


def sub(name, strategy, quick=100, thorough=None, nontrivial=None, budget=None, shards=None):
    def deco(fn):
        _REG.append(
            Sub(name, strategy, fn, quick, thorough or quick * 20, nontrivial, budget, shards)
        )
        return fn

    return deco


# --------------------------------------------------------------------------
# known findings
# --------------------------------------------------------------------------
def load_known():
    """finding: property=C01 id=slug what fails  ->  {(prop, id): what}"""
    out = {}
    try:
        lines = open(KNOWN_FILE).read().splitlines()
    except OSError:
        return out
    for ln in lines:
        ln = ln.strip()
        if not ln.startswith("finding:"):
            continue
        parts = ln[len("finding:"):].split(None, 2)
        prop = parts[0].split("=", 1)[1]
        ident = parts[1].split("=", 1)[1]
        out[(prop, ident)] = parts[2] if len(parts) > 2 else ident
    return out


_KNOWN = load_known()


def known(prop, ident):
    return (prop, ident) in _KNOWN


# --------------------------------------------------------------------------
def canon(case):
    return json.dumps(case, sort_keys=True)


def _short(obj, depth=0):
    """Truncated rendering of a case for the evidence samples."""
    if isinstance(obj, dict):
        return {k: _short(v, depth + 1) for k, v in list(obj.items())[:12]}
    if isinstance(obj, (list, tuple)):
        head = [_short(v, depth + 1) for v in obj[:6]]
        if len(obj) > 6:
            head.append("... %d items in all" % len(obj))
        return head
    if isinstance(obj, float) and obj == obj and abs(obj) != float("inf"):
        return float("%.9g" % obj)
    if isinstance(obj, float):
        return repr(obj)
    return obj


def _alarm(signum, frame):
    raise Hang("case did not finish within %d s" % CASE_LIMIT_S)


def run_case(fn, case, seed):
    h = int.from_bytes(hashlib.sha256((canon(case) + str(seed)).encode()).digest()[:4], "big")
    torch.manual_seed(h)
    np.random.seed(h % (2**32))
    random.seed(h)
    torch.set_default_dtype(torch.float32)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        return fn(case)
    finally:
        signal.alarm(0)


def run_sub(module, subname, seed, n_examples, budget_s, trace_path=None):
    """Executed in a worker. Returns a JSON-serialisable result dict."""
    t0 = time.time()
    res = {
        "sub": subname, "evaluations": 0, "nontrivial": 0, "labels": {}, "samples": [],
        "hashes": [], "failure": None, "error": None, "budget_hit": False, "wall": 0.0,
    }
    hashes = set()
    try:
        mod = importlib.import_module(module)
    except HarnessError as exc:
        res["error"] = "".join(traceback.format_exception(exc))[-3000:]
        return res
    except BaseException as exc:  # code under test no longer imports
        res["failure"] = {
            "case": None, "what": "import failed: %r" % (exc,),
            "trace": "".join(traceback.format_exception(exc))[-3000:],
        }
        return res
    s = next(x for x in mod.SUBS if x.name == subname)
    state = {"first_fail": None, "best": None, "best_key": None, "harness": None}

    def body(case):
        now = time.time()
        if state["first_fail"] is not None and now - state["first_fail"] > SHRINK_LIMIT_S:
            raise _Stop()
        if state["first_fail"] is None and now - t0 > budget_s:
            res["budget_hit"] = True
            raise _Stop()
        key = canon(case)
        if trace_path:
            with open(trace_path, "w") as f:
                f.write(key)
        try:
            labels = run_case(s.fn, case, seed)
        except HarnessError as exc:
            state["harness"] = "".join(traceback.format_exception(exc))[-3000:]
            raise _Stop()
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except Exception as exc:
            if state["first_fail"] is None:
                state["first_fail"] = time.time()
            k = (len(key), key)
            if state["best"] is None or k < state["best_key"]:
                state["best_key"] = k
                state["best"] = {
                    "case": json.loads(key), "what": "%s: %s" % (type(exc).__name__, str(exc)[:1500]),
                    "trace": "".join(traceback.format_exception(exc))[-3000:],
                }
            if isinstance(exc, Hang):
                raise _Stop()
            raise
        if state["first_fail"] is None:
            res["evaluations"] += 1
            nt = True if s.nontrivial is None else bool(s.nontrivial(case))
            if nt:
                h = hashlib.sha1((subname + key).encode()).hexdigest()[:16]
                hashes.add(h)
                if len(res["samples"]) < 2 or (len(res["samples"]) < 4 and res["evaluations"] % 17 == 0):
                    res["samples"].append(_short(json.loads(key)))
            for lb in labels or ():
                res["labels"][lb] = res["labels"].get(lb, 0) + 1

    test = given(s.strategy)(body)
    test = hypothesis.seed(seed)(test)
    test = settings(
        max_examples=n_examples, database=None, deadline=None, derandomize=False,
        suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink),
        report_multiple_bugs=False, print_blob=False, verbosity=hypothesis.Verbosity.quiet,
    )(test)
    try:
        test()
    except _Stop:
        pass
    except BaseException as exc:
        if state["best"] is None:
            # nothing from the body failed: generator or hypothesis problem
            state["harness"] = state["harness"] or "".join(traceback.format_exception(exc))[-3000:]
    res["failure"] = state["best"]
    res["error"] = state["harness"]
    res["hashes"] = sorted(hashes)
    res["wall"] = time.time() - t0
    return res


@contextlib.contextmanager
def _silence():
    sys.stdout.flush()
    sys.stderr.flush()
    devnull = os.open(os.devnull, os.O_WRONLY)
    o1, o2 = os.dup(1), os.dup(2)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    try:
        yield
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(o1, 1)
        os.dup2(o2, 2)
        for d in (devnull, o1, o2):
            os.close(d)


def finish_module(globs):
    """Called at the end of each check module to collect its sub-properties."""
    subs = list(_REG)
    _REG.clear()
    names = [s.name for s in subs]
    if len(set(names)) != len(names):
        raise HarnessError("duplicate sub-property names: %r" % (names,))
    globs["SUBS"] = subs
