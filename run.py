"""run.py <ID> [--tier quick|thorough] [--only sub[,sub]] [--replay file] [--list]"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
_ENV = {
    "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "PYTHONNOUSERSITE": "1",
    "MPLBACKEND": "Agg", "CUDA_VISIBLE_DEVICES": "", "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
}
if any(os.environ.get(k) != v for k, v in _ENV.items()):
    os.environ.update(_ENV)
    os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)] + sys.argv[1:])

sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(1, REPO)

from vlib import harness as H  # noqa: E402

NPROC = int(os.environ.get("VERIF_JOBS", "8"))
QUICK_ROUNDS = int(os.environ.get("VERIF_ROUNDS", "6"))
QUICK_SOFT_S = float(os.environ.get("VERIF_SOFT", "30"))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--verbose", "-v", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    module = "checks." + a.id.lower()
    t0 = time.time()

    # The sub-property list is read in a child so that import-time damage in the
    # code under test is observed as a violation, not as a crash of the runner.
    kind, val = in_child(lambda: listing(module), limit=240)
    if kind == "ok" and "error" in val:
        print(val["error"], file=sys.stderr)
        return 2
    if kind != "ok" or "import" in val:
        what = val["import"] if kind == "ok" else "import ended abnormally: %s" % (val,)
        path = save_replay(a.id, "import", None, what, seed)
        print(what)
        print("VIOLATION property=%s replay=%s" % (a.id, path))
        write_evidence(a.id, tier, seed, [], 1, t0, val.get("rule", "") if kind == "ok" else "", [])
        return 1
    subs = val["subs"]
    if a.list:
        for s in subs:
            print(s)
        return 0
    if a.replay:
        rec = json.load(open(a.replay))
        if rec.get("case") is None:
            print("replay: the code under test imports again")
            return 0
        kind, v = in_child(lambda: replay_one(module, rec["sub"], rec["case"], rec["seed"]), limit=600)
        if kind == "ok" and v is None:
            print("replay passes")
            return 0
        print(v)
        print("VIOLATION property=%s replay=%s" % (a.id, a.replay))
        return 1
    if a.only:
        keep = set(a.only.split(","))
        subs = [s for s in subs if s["name"] in keep]

    jobs = []
    if tier == "quick":
        # the first round always runs; further rounds, with other seeds, only while time is left
        for rnd in range(QUICK_ROUNDS):
            for s in subs:
                n = max(1, int(s["quick"] * a.scale))
                shards = s["shards"] or 1
                for k in range(shards):
                    jobs.append((s, max(1, n // shards), rnd * shards + k, rnd > 0))
    for s in subs:
        if tier != "quick":
            shards = 4
            for k in range(shards):
                jobs.append((s, max(1, int(s["thorough"] * a.scale) // shards), k, False))
    total_budget = 600 if tier == "quick" else 12 * 3600
    results = [r for r in run_jobs(module, jobs, seed, t0, total_budget, 90 if tier == "quick" else 3000) if r is not None]

    rc = 0
    nviol = 0
    for r in results:
        if r["error"] and not r["failure"]:
            print("HARNESS ERROR in %s\n%s" % (r["sub"], r["error"]), file=sys.stderr)
            rc = max(rc, 2)
    seen = set()
    for r in results:
        if r["failure"] and r["sub"] not in seen:
            seen.add(r["sub"])
            nviol += 1
            path = save_replay(a.id, r["sub"], r["failure"]["case"], r["failure"]["what"], r["seed"])
            print("--- %s/%s: %s" % (a.id, r["sub"], r["failure"]["what"]))
            if a.verbose:
                print(r["failure"]["trace"])
            print("VIOLATION property=%s replay=%s" % (a.id, path))
    if nviol:
        rc = 1
    # known findings
    for (prop, ident), what in sorted(H._KNOWN.items()):
        if prop != a.id:
            continue
        kind, v = in_child(lambda: probe(module, ident), limit=300)
        if kind == "ok" and v is False:
            print("note: known finding %s no longer reproduces" % ident)
        else:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    write_evidence(a.id, tier, seed, results, nviol, t0, val["rule"], val["assumptions"])
    tot = sum(r["evaluations"] for r in results)
    print("%s tier=%s seed=%d sub-properties=%d cases=%d violations=%d wall=%.1fs"
          % (a.id, tier, seed, len(subs), tot, nviol, time.time() - t0))
    if a.verbose:
        for r in sorted(results, key=lambda r: -r["wall"]):
            print("  %-40s cases=%-6d wall=%.1fs%s %s" % (
                r["sub"], r["evaluations"], r["wall"], " BUDGET" if r["budget_hit"] else "", r["labels"]))
    return rc


def listing(module):
    try:
        m = importlib.import_module(module)
    except H.HarnessError as e:
        return {"error": "".join(traceback.format_exception(e))}
    except BaseException as e:
        return {"import": "import failed: %s" % "".join(traceback.format_exception(e))[-2000:]}
    return {
        "subs": [dict(name=s.name, quick=s.quick, thorough=s.thorough, budget=s.budget, shards=s.shards)
                 for s in m.SUBS],
        "rule": getattr(m, "RULE", ""), "assumptions": getattr(m, "ASSUMPTIONS", []),
    }


def replay_one(module, subname, case, seed):
    m = importlib.import_module(module)
    s = next(x for x in m.SUBS if x.name == subname)
    try:
        H.run_case(s.fn, case, seed)
    except Exception as e:
        return "".join(traceback.format_exception(e))[-4000:]
    return None


def probe(module, ident):
    m = importlib.import_module(module)
    try:
        return bool(m.FINDINGS[ident]())
    except Exception:
        return True


def in_child(fn, limit):
    """Run fn in a forked child; returns ('ok', value) or ('dead', reason)."""
    fd, path = tempfile.mkstemp(prefix="vrun")
    os.close(fd)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            with H._silence():
                out = fn()
            with open(path, "w") as f:
                json.dump(out, f)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    t = time.time()
    try:
        while True:
            p, status = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.time() - t > limit:
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                return "dead", "did not finish within %d s" % limit
            time.sleep(0.02)
        if status != 0:
            return "dead", "wait status %d" % status
        return "ok", json.load(open(path))
    finally:
        os.unlink(path)


def run_jobs(module, jobs, seed, t0, total_budget, default_budget):
    tmp = tempfile.mkdtemp(prefix="vrun")
    pending = list(enumerate(jobs))
    running = {}
    results = [None] * len(jobs)
    tries = {}
    try:
        while pending or running:
            while pending and len(running) < NPROC:
                i, (s, n, k, extra) = pending.pop(0)
                if extra and (time.time() - t0 > QUICK_SOFT_S or any(r and (r["failure"] or r["error"]) for r in results)):
                    continue
                sd = (zlib.crc32(("%s/%d" % (s["name"], k)).encode()) ^ (seed * 2654435761)) & 0x7FFFFFFF
                budget = min(s["budget"] or default_budget, max(5.0, total_budget - (time.time() - t0)))
                if extra:
                    budget = min(budget, 30.0)
                out = os.path.join(tmp, "%d.json" % i)
                tr = os.path.join(tmp, "%d.trace" % i) if tries.get(i) else None
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 3
                    try:
                        with H._silence():
                            r = H.run_sub(module, s["name"], sd, n, budget, tr)
                        r["seed"] = sd
                        with open(out + ".part", "w") as f:
                            json.dump(r, f)
                        os.rename(out + ".part", out)
                        code = 0
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        os._exit(code)
                running[pid] = (i, s, n, k, sd, out, tr, time.time(), budget)
            try:
                pid, status = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                pid = 0
            if pid and pid in running:
                i, s, n, k, sd, out, tr, ts, budget = running.pop(pid)
                if os.path.exists(out):
                    results[i] = json.load(open(out))
                else:
                    died(i, s, n, k, sd, tr, status, tries, pending, results)
                continue
            for p, (i, s, n, k, sd, out, tr, ts, budget) in list(running.items()):
                if time.time() - ts > budget + H.CASE_LIMIT_S + H.SHRINK_LIMIT_S + 30:
                    os.kill(p, 9)
            time.sleep(0.02)
    finally:
        subprocess.run(["/bin/rm", "-rf", tmp])
    return results


def died(i, s, n, k, sd, tr, status, tries, pending, results):
    """A worker ended without a result: rerun once, recording every case."""
    blank = {"sub": s["name"], "evaluations": 0, "nontrivial": 0, "labels": {}, "samples": [], "hashes": [],
             "failure": None, "error": None, "budget_hit": False, "wall": 0.0, "seed": sd}
    if not tries.get(i):
        tries[i] = 1
        pending.insert(0, (i, (s, n, k, False)))
        return
    case = None
    if tr and os.path.exists(tr):
        case = json.load(open(tr))
    if case is None:
        blank["error"] = "worker ended with status %d before any case" % status
    else:
        blank["failure"] = {"case": case, "what": "the process ended abnormally (wait status %d)" % status, "trace": ""}
    results[i] = blank


def save_replay(pid, subname, case, what, seed):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, subname))
    with open(path, "w") as f:
        json.dump({"property": pid, "sub": subname, "seed": seed, "what": what, "case": case}, f, indent=1)
    return path


def write_evidence(pid, tier, seed, results, nviol, t0, rule, assumptions):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    per = {}
    hashes = set()
    samples = []
    for r in results:
        p = per.setdefault(r["sub"], {"cases": 0, "distinct_nontrivial": 0, "labels": {}, "budget_hit": False})
        p["cases"] += r["evaluations"]
        new = set(r["hashes"]) - hashes
        hashes |= new
        p["distinct_nontrivial"] += len(new)
        p["budget_hit"] = p["budget_hit"] or r["budget_hit"]
        for kk, v in r["labels"].items():
            p["labels"][kk] = p["labels"].get(kk, 0) + v
        for smp in r["samples"][:1 if len(results) > 12 else 2]:
            samples.append({"sub": r["sub"], "case": smp})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(hashes), "rule": rule, "samples": samples[:40],
            "sub_properties": per,
        },
        "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    tmp = os.path.join(d, ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, "%s.json" % pid))


if __name__ == "__main__":
    sys.exit(main())
