"""Runner: shards every sub-check of one property over processes, merges evidence, prints the verdict."""
import argparse
import glob
import importlib
import json
import multiprocessing as mp
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from vlib import boot

boot.ensure_deps()
from vlib.core import Rec, Violation, canon, describe, digest, from_repo, seed_of

SHARDS = int(os.environ.get("VERIF_SHARDS", "8"))
SHRINK_S = 45
WALL_S = 840


CASE_S = 90


class _Stop(BaseException):
    pass


class _Timeout(BaseException):
    pass


def _alarm(*_):
    raise _Timeout()


def execute(sub, case):
    """Run one case. Returns rec; raises Violation; harness errors propagate."""
    rec = Rec()
    case = json.loads(canon(case))
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_S)
    try:
        sub.fn(case, rec)
    except Violation:
        raise
    except _Timeout:
        raise Violation("did not finish within %d s" % CASE_S, key="timeout")
    except Exception as e:
        if from_repo(e) and not isinstance(e, MemoryError):
            raise Violation("unexpected exception from hadar: %s" % describe(e))
        raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return rec


def run_sub(sub, n, seed, trail=None):
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings

    out = {"name": sub.name, "evaluations": 0, "nontrivial": set(), "labels": {}, "samples": [], "fail": None}
    st = {"best": None, "t": None}

    @hypothesis.seed(seed)
    @settings(
        max_examples=n,
        database=None,
        deadline=None,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
        report_multiple_bugs=False,
        print_blob=False,
        verbosity=Verbosity.quiet,
    )
    @given(sub.strategy())
    def prop(case):
        if st["t"] is not None and time.monotonic() - st["t"] > SHRINK_S:
            raise _Stop()
        out["evaluations"] += 1
        if trail is not None:  # so that a crash of the interpreter can be told
            data = canon({"sub": sub.name, "case": case}).encode()
            os.ftruncate(trail, 0)
            os.pwrite(trail, data, 0)
        try:
            rec = execute(sub, case)
        except Violation as v:
            size = len(canon(case))
            if st["best"] is None or size <= st["best"][0]:
                st["best"] = (size, case, str(v), v.key)
            if st["t"] is None:
                st["t"] = time.monotonic()
            if v.key == "timeout":
                raise _Stop()  # too slow to shrink
            raise
        if st["t"] is None:
            for l in rec.labels:
                out["labels"][l] = out["labels"].get(l, 0) + 1
            if rec.nontrivial:
                out["nontrivial"].add(digest(case))
                if len(out["samples"]) < 2:
                    out["samples"].append(canon(case)[:1200])

    try:
        prop()
    except (_Stop, Violation):
        pass
    except BaseException:
        if st["best"] is None:
            raise
    if st["best"] is not None:
        out["fail"] = {"case": st["best"][1], "message": st["best"][2], "key": st["best"][3]}
    return out


def worker(pid, tier, seed, shard, scale, path, only):
    try:
        os.setpgid(0, 0)
        if not os.environ.get("VERIF_STDERR"):
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 2)  # ortools logs every infeasible model on stderr
        mod = load(pid)
        outs = []
        trail = os.open(path + ".case", os.O_CREAT | os.O_RDWR)
        for sub in mod.SUBS:
            if only and sub.name not in only:
                continue
            total = sub.thorough if tier == "thorough" else sub.quick
            n = max(1, int(round(total * scale / SHARDS)))
            o = run_sub(sub, n, seed_of(seed, pid, sub.name, shard, tier), trail)
            outs.append(o)
            if o["fail"]:
                break
        res = {"outs": outs, "error": None}
    except BaseException:
        res = {"outs": [], "error": traceback.format_exc()}
    with open(path + ".tmp", "wb") as f:
        pickle.dump(res, f)
    os.rename(path + ".tmp", path)
    os._exit(0)


def load(pid):
    boot.import_hadar()
    return importlib.import_module("checks.%s" % pid.lower())


def write_replay(pid, sub, fail):
    d = os.path.join(boot.VERIF, "replays")
    try:
        os.makedirs(d, exist_ok=True)
    except OSError:
        d = tempfile.mkdtemp(prefix="replays")
    p = os.path.join(d, "%s-%s.json" % (pid, sub))
    with open(p, "w") as f:
        json.dump({"property": pid, "sub": sub, "message": fail["message"], "case": fail["case"]}, f, indent=1)
    return p


def known(pid):
    """Findings recorded as open for this property: {"property", "sub", "case", "what"}"""
    p = os.path.join(boot.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p)).get("open", []) if e["property"] == pid]


def crashes(pid, path, scratch):
    """The case a dead shard was running, if it kills the interpreter again, twice."""
    try:
        r = json.load(open(path + ".case"))
    except (OSError, ValueError):
        return None
    p = os.path.join(scratch, "crash.json")
    with open(p, "w") as f:
        json.dump(r, f)
    for _ in range(2):
        try:
            q = subprocess.run([sys.executable, "-W", "ignore", "-m", "vlib.main", pid, "--replay", p], stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL, timeout=CASE_S + 30, cwd=boot.VERIF)
        except subprocess.TimeoutExpired:
            return None
        if q.returncode >= 0 or -q.returncode in (signal.SIGKILL, signal.SIGTERM):
            return None
    return r["sub"], {"case": r["case"], "message": "the interpreter crashes (signal %d)" % -q.returncode, "key": "crash"}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only", action="append")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    pid = a.pid.upper()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    boot.quiet_stdout()
    try:
        try:
            mod = load(pid)
        except Exception as e:
            traceback.print_exc()
            return 2
        subs = {s.name: s for s in mod.SUBS}

        if a.replay:
            r = json.load(open(a.replay))
            try:
                execute(subs[r["sub"]], r["case"])
            except Violation as v:
                boot.say("%s" % v)
                boot.say("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(a.replay)))
                return 1
            boot.say("replay holds")
            return 0

        evals, nontriv, labels, samples = 0, set(), {}, []
        violation = None
        # 1. committed regression cases (minimal inputs of defects found earlier), bypassing hypothesis
        regress = 0
        for p in sorted(glob.glob(os.path.join(boot.VERIF, "regress", pid, "*.json"))):
            r = json.load(open(p))
            regress += 1
            try:
                rec = execute(subs[r["sub"]], r["case"])
                if rec.nontrivial:
                    nontriv.add(digest(r["case"]))
            except Violation as v:
                violation = (r["sub"], {"case": r["case"], "message": str(v), "key": v.key})
                break
        evals += regress

        # 2. generated search, sharded
        if violation is None:
            scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
            try:
                ctx = mp.get_context("fork")
                procs = []
                for i in range(SHARDS):
                    path = os.path.join(scratch, "r%d" % i)
                    p = ctx.Process(target=worker, args=(pid, a.tier, seed, i, a.scale, path, a.only))
                    p.start()
                    procs.append((p, path))
                pending = list(procs)
                wall = WALL_S if a.tier == "quick" else 6 * 3600
                err = None
                failures = []
                grace = None
                while pending:
                    time.sleep(0.05)
                    for p, path in list(pending):
                        if os.path.exists(path):
                            res = pickle.load(open(path, "rb"))
                            pending.remove((p, path))
                            p.join()
                            if res["error"]:
                                err = err or res["error"]
                            for o in res["outs"]:
                                evals += o["evaluations"]
                                nontriv |= o["nontrivial"]
                                for k, v in o["labels"].items():
                                    labels.setdefault(o["name"], {}).setdefault(k, 0)
                                    labels[o["name"]][k] += v
                                labels.setdefault(o["name"], {}).setdefault("_evaluations", 0)
                                labels[o["name"]]["_evaluations"] += o["evaluations"]
                                labels[o["name"]].setdefault("_nontrivial", 0)
                                labels[o["name"]]["_nontrivial"] += len(o["nontrivial"])
                                if len([s for s in samples if s["check"] == o["name"]]) < 2:
                                    samples += [{"check": o["name"], "case": s} for s in o["samples"][:1]]
                                if o["fail"]:
                                    failures.append((o["name"], o["fail"]))
                        elif not p.is_alive():
                            p.join()
                            if not os.path.exists(path):
                                pending.remove((p, path))
                                dead = crashes(pid, path, scratch)
                                if dead:
                                    failures.append(dead)
                                else:
                                    err = err or "shard died with code %s" % p.exitcode
                    if failures and grace is None:
                        grace = time.time()
                    # one failure is enough; give the others a moment (a smaller case may come), then stop
                    if grace is not None and time.time() - grace > 3:
                        break
                    if time.time() - t0 > wall:
                        err = err or "wall clock budget of the runner exceeded (inconclusive)"
                        break
                for p, _ in pending:
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        p.kill()
                    p.join()
                if failures:
                    violation = min(failures, key=lambda f: len(canon(f[1]["case"])))
                elif err:
                    sys.stderr.write(err + "\n")
                    return 2
            finally:
                shutil.rmtree(scratch, ignore_errors=True)

        ev = {
            "property": pid,
            "tier": a.tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evals,
                "distinct_nontrivial": len(nontriv),
                "rule": "; ".join("%s: %s" % (s.name, s.rule) for s in mod.SUBS if s.rule),
                "samples": samples,
                "regression_cases": regress,
                "classes": labels,
            },
            "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
            "wall_s": round(time.time() - t0, 2),
            "violations": 0 if violation is None else 1,
        }
        code = 0
        if violation is not None:
            sub, fail = violation
            path = write_replay(pid, sub, fail)
            boot.say("%s/%s: %s" % (pid, sub, fail["message"]))
            boot.say("VIOLATION property=%s replay=%s" % (pid, path))
            code = 1
        else:
            for e in known(pid):  # generators avoid these inputs; each is tried here by itself
                try:
                    execute(subs[e["sub"]], e["case"])
                except Violation:
                    boot.say("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
            boot.say("%s ok: %d cases, %d distinct non-trivial, %.1fs" % (pid, evals, len(nontriv), time.time() - t0))
            if a.verbose:
                boot.say(json.dumps(labels, indent=1, sort_keys=True))
        os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
        p = os.path.join(boot.VERIF, "evidence", pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        return code
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
