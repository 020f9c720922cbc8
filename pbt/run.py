#!/usr/bin/env python3
"""Runs the check of one property:  run.py <ID> [--tier quick|thorough] [--replay FILE] [--law NAME] [--scale X]

exit 0: held on everything explored;  exit 1 + "VIOLATION property=<id> replay=<path>";  exit 2: the check itself failed.
"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import bootstrap
bootstrap.reexec()
bootstrap.install()

import argparse
import ast
import glob
import importlib
import json
import pickle
import shutil
import signal
import time
import traceback
import hashlib


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--law")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    scratch = os.environ["PBT_SCRATCH"]
    os.chmod(os.environ["HOME"], 0o777)
    from lib import core
    sys.stdout.flush()
    mod = importlib.import_module("checks." + a.prop.lower())
    os.chmod(os.path.join(os.environ["HOME"], "tmp"), 0o777) if os.path.isdir(os.path.join(os.environ["HOME"], "tmp")) else None
    laws = {l.name: l for l in mod.LAWS}

    if a.replay:
        rec = ast.literal_eval(open(a.replay).read())
        res = run_one(core, laws[rec["law"]], rec["case"], scratch, "replay")
        if res is None:
            print("replay: the case passes")
            return 0
        print(res[1])
        print("VIOLATION property=%s replay=%s" % (a.prop, os.path.abspath(a.replay)))
        return 1

    budget = 420 if a.tier == "quick" else 780
    budget = float(os.environ.get("PBT_BUDGET", budget))
    deadline = t0 + budget
    results, failures, errors, known_lines = [], [], [], []
    # 1. regression tier: saved minimal cases of repaired defects (plain data, no generator library involved)
    cases = sorted(glob.glob(os.path.join(bootstrap.VERIF, "pbt", "regress", a.prop, "*.case")))
    regress = 0
    for path in cases:
        rec = ast.literal_eval(open(path).read())
        if rec["law"] not in laws:
            errors.append("regression case %s names unknown law" % path)
            continue
        res = run_one(core, laws[rec["law"]], rec["case"], scratch, "regress.%d" % regress)
        regress += 1
        if res is not None:
            failures.append(dict(law=rec["law"], case=rec["case"], kind=res[0], traceback=res[1]))
    # 2. known findings that were not repaired: the listed input must still fail in the listed way
    for k in getattr(mod, "KNOWN", []):
        res = run_one(core, laws[k["law"]], k["case"], scratch, "known.%s" % k["id"])
        if res is not None:
            known_lines.append("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    # 3. generated search
    queue = []
    for l in mod.LAWS:
        if a.law and l.name != a.law:
            continue
        total = l.quick if a.tier == "quick" else l.thorough
        total = max(1, int(total * a.scale))
        shards = max(1, min(l.shards if a.tier == "quick" else 8, total))
        for s in range(shards):
            queue.append((l, s, -(-total // shards)))
    if not failures:
        running = {}
        pending = sorted(queue, key=lambda x: x[1])
        stop = False
        while pending or running:
            while pending and len(running) < a.jobs and not stop:
                l, s, n = pending.pop(0)
                root = core.make_root(scratch, "s.%s.%d" % (l.name, s))
                out, cur, dbg = (os.path.join(root, x) for x in ("out.pkl", "cur", "dbg"))
                sd = core.seed_of(seed, a.prop, l.name, s)
                pid = core.fork_call(lambda: core.shard_main(l, n, sd, deadline, out, cur, root), root, dbg)
                running[pid] = (l, s, root, out, cur, dbg)
            if not running:
                break
            pid, status = wait_some(running, deadline + 240)
            if pid is None:
                # hard stop: a shard that does not even react to its watchdog
                for p in list(running):
                    l, s, root, out, cur, dbg = running.pop(p)
                    kill(p)
                    failures.append(dict(law=l.name, case=read_cur(cur), kind="timeout", traceback="shard did not react to its watchdog"))
                break
            l, s, root, out, cur, dbg = running.pop(pid)
            if os.path.exists(out):
                st = pickle.load(open(out, "rb"))
                st["law"] = l.name
                results.append(st)
                if st["error"]:
                    errors.append("%s: %s" % (l.name, st["error"]))
                if st["failure"]:
                    failures.append(st["failure"])
                    stop = True
            elif os.WIFSIGNALED(status) and os.WTERMSIG(status) != signal.SIGKILL or (os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0):
                failures.append(dict(law=l.name, case=read_cur(cur), kind="crash", traceback="the process ended while running this case, status %r" % status))
                stop = True
            else:
                errors.append("%s: shard ended with status %r: %s" % (l.name, status, open(dbg).read() if os.path.exists(dbg) else ""))
            shutil.rmtree(root, ignore_errors=True)
            if stop:
                pending = []
                for p in list(running):
                    kill(p)
                    os.waitpid(p, 0)
                    running.pop(p)
    # report
    for line in known_lines:
        print(line)
    write_evidence(a, mod, laws, results, regress, cases, failures, known_lines, seed, t0)
    if failures:
        f = failures[0]
        os.makedirs(os.path.join(bootstrap.VERIF, "replays"), exist_ok=True)
        rec = {"property": a.prop, "law": f["law"], "case": f["case"], "kind": f["kind"], "error": f["traceback"]}
        text = "{%s}\n" % ",\n ".join("%r: %r" % kv for kv in rec.items())
        path = os.path.join(bootstrap.VERIF, "replays", "%s-%s-%s.case" % (
            a.prop, f["law"], hashlib.sha256(repr(f["case"]).encode("utf-8", "backslashreplace")).hexdigest()[:10]))
        with open(path, "w", encoding="utf-8", errors="backslashreplace") as fh:
            fh.write(text)
        print("law %s fails on %s\n%s" % (f["law"], repr(f["case"])[:4000].encode("utf-8", "backslashreplace").decode(), f["traceback"].encode("utf-8", "backslashreplace").decode()))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    if errors:
        print("CHECK ERROR\n" + "\n".join(errors), file=sys.stderr)
        return 2
    n = sum(r["evals"] for r in results)
    print("property=%s tier=%s held on %d generated cases, %d regression cases (%.1f s)" % (a.prop, a.tier, n, regress, time.time() - t0))
    return 0


def read_cur(cur):
    try:
        return ast.literal_eval(open(cur, encoding="utf-8").read())
    except Exception:
        return None


def kill(pid):
    try:
        os.kill(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def wait_some(running, until):
    while True:
        for p in list(running):
            q, status = os.waitpid(p, os.WNOHANG)
            if q:
                return q, status
        if time.time() > until:
            return None, None
        time.sleep(0.01)


def run_one(core, law, case, scratch, name):
    """Runs one saved case in a forked, contained process."""
    root = core.make_root(scratch, name)
    out, dbg = os.path.join(root, "out.pkl"), os.path.join(root, "dbg")

    def body():
        signal.signal(signal.SIGPROF, core._on_alarm)
        signal.signal(signal.SIGALRM, core._on_alarm)
        res = core.run_body(law, case, core.Ctx(root))
        with open(out, "wb") as f:
            pickle.dump(res, f)
    pid = core.fork_call(body, root, dbg)
    _, status = os.waitpid(pid, 0)
    if os.path.exists(out):
        res = pickle.load(open(out, "rb"))
    else:
        res = ("crash", "process ended with status %r\n%s" % (status, open(dbg).read() if os.path.exists(dbg) else ""))
    shutil.rmtree(root, ignore_errors=True)
    return res


def write_evidence(a, mod, laws, results, regress, cases, failures, known_lines, seed, t0):
    hashes, labels, per_law, samples = set(), {}, {}, []
    for r in results:
        hashes |= {(r["law"], h) for h in r["hashes"]}
        for k, v in r["labels"].items():
            labels[r["law"] + ": " + k] = labels.get(r["law"] + ": " + k, 0) + v
        p = per_law.setdefault(r["law"], {"evaluations": 0, "nontrivial": 0, "stopped_by_time_budget": 0})
        p["evaluations"] += r["evals"]
        p["nontrivial"] += len(r["hashes"])
        p["stopped_by_time_budget"] += 1 if r["late"] else 0
        samples += [{"law": r["law"], "case": s} for s in r["samples"]]
    rule = " | ".join("%s: %s" % (l.name, l.rule) for l in mod.LAWS if l.rule)
    ev = {"property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration",
          "coverage": {"evaluations": sum(p["evaluations"] for p in per_law.values()) + regress,
                       "distinct_nontrivial": len(hashes), "rule": rule, "samples": samples[:40],
                       "per_law": per_law, "classes": dict(sorted(labels.items())),
                       "regression_cases": regress, "known_findings_reproduced": len(known_lines)},
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 2), "violations": len(failures)}
    from lib.bootstrap import VERIF
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    text = json.dumps(ev, indent=1, ensure_ascii=True)
    with open(os.path.join(d, a.prop + ".json"), "w") as f:
        f.write(text + "\n")


if __name__ == "__main__":
    code = 2
    try:
        code = main()
    except BaseException:
        traceback.print_exc()
        code = 2
    finally:
        shutil.rmtree(os.environ["PBT_SCRATCH"], ignore_errors=True)
        sys.stdout.flush()
    os._exit(code)
