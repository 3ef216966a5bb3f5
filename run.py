#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Decides one property by generated-input search.  Exit 0: held on everything explored; 1: VIOLATION printed;
2: no answer (build failure or an error of the harness itself).
"""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vlib import build as vbuild  # noqa: E402

HANG_S = 150


def load_known(prop):
    known = {}
    p = os.path.join(HERE, "known_findings.jsonl")
    for line in open(p) if os.path.exists(p) else []:
        line = line.strip()
        if not line.startswith("{"):
            continue
        d = json.loads(line)
        if d.get("property") == prop and d.get("status") == "known":
            known[d["signature"]] = d
    return known


def worker_env(farm, threads=2):
    env = vbuild.base_env()
    env["PYTHONPATH"] = farm + os.pathsep + vbuild.deps_dir()
    env["MPLBACKEND"] = "Agg"
    env["OMP_NUM_THREADS"] = str(threads)
    env["OPENBLAS_NUM_THREADS"] = "1"
    env["OMP_WAIT_POLICY"] = "passive"
    env["MPLCONFIGDIR"] = os.path.join(vbuild.BUILD, "mpl")
    os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
    return env


def start(job, jobdir, name, env):
    job = dict(job)
    job["out"] = os.path.join(jobdir, name + ".out.json")
    job["cur"] = os.path.join(jobdir, name + ".cur.json")
    job["tmp"] = os.path.join(jobdir, name + ".tmp")
    os.makedirs(job["tmp"], exist_ok=True)
    jf = os.path.join(jobdir, name + ".job.json")
    json.dump(job, open(jf, "w"))
    err = open(os.path.join(jobdir, name + ".err"), "w")
    env = dict(env, TMPDIR=job["tmp"])
    p = subprocess.Popen([vbuild.VENV, os.path.join(HERE, "vlib", "worker.py"), jf], env=env, stdin=subprocess.DEVNULL,
                         stdout=subprocess.DEVNULL, stderr=err, start_new_session=True, cwd=job["tmp"])
    return p, job


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def read(path):
    try:
        return json.load(open(path))
    except (OSError, ValueError):
        return None


def errtail(job):
    try:
        return open(job["out"].replace(".out.json", ".err")).read()[-2500:]
    except OSError:
        return ""


def replay_case(base, jobdir, name, env, sub, spec, timeout):
    """-> ("ok"|"violation"|"error"|"crash"|"hang", text)"""
    p, job = start(dict(base, replay={"sub": sub, "spec": spec}, cpu=None), jobdir, name, env)
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        kill(p)
        return "hang", "no answer within %d s" % timeout
    kill(p)
    o = read(job["out"])
    if o and o.get("replay"):
        if o["known"]:
            return "known", json.dumps(list(o["known"]))
        k, v = o["replay"]
        return ("ok" if k == "skip" else k), str(v)
    if p.returncode < 0:
        return "crash", "ended by signal %d" % -p.returncode
    return "error", errtail(job)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float, help="seconds of generation per slot")
    ap.add_argument("--slots", type=int, default=None)
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    t0 = time.time()
    try:
        farm = vbuild.build()
    except vbuild.BuildError as e:
        print("BUILD FAILED:\n" + str(e))
        return 2
    module = a.prop.lower()
    known = load_known(a.prop)
    cpus = sorted(os.sched_getaffinity(0))
    slots = a.slots or max(2, min(8, len(cpus)))
    env = worker_env(farm)
    budget = a.budget or (60.0 if a.tier == "quick" else 480.0)
    jobdir = tempfile.mkdtemp(prefix="vp-%s-" % a.prop)
    base = {"verif": HERE, "farm": farm, "module": module, "tier": a.tier, "seed": a.seed, "slots": slots, "slot": 0,
            "budget": budget, "shrink_s": 25.0, "known": sorted(known)}
    evdir = os.environ.get("VP_EVIDENCE_DIR", os.path.join(HERE, "evidence"))
    repdir = os.path.join(evdir, "replays")
    os.makedirs(repdir, exist_ok=True)
    try:
        if a.replay:
            rep = json.load(open(a.replay))
            kind, text = replay_case(base, jobdir, "replay", env, rep["sub"], rep["spec"], 300)
            print("replay: %s %s" % (kind, text))
            if kind in ("violation", "crash", "hang"):
                print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
                return 1
            return 2 if kind == "error" else 0
        running = {}
        for i in range(slots):
            running[i] = start(dict(base, slot=i, cpu=cpus[i % len(cpus)]), jobdir, "slot%d" % i, env)
        results, crash, err = {}, [], []
        t_viol = None
        deadline = time.time() + budget + 240
        while running:
            time.sleep(0.1)
            for i, (p, job) in list(running.items()):
                rc = p.poll()
                if rc is not None:
                    kill(p)
                    o = read(job["out"])
                    if o and o.get("done"):
                        results[i] = o
                        if o["violation"] and t_viol is None:
                            t_viol = time.time()
                    else:
                        cur = read(job["cur"])
                        if o:
                            results[i] = o
                        if rc < 0 and rc != -signal.SIGKILL and cur:
                            crash.append((cur, "ended by signal %d" % -rc))
                            t_viol = t_viol or time.time()
                        else:
                            err.append("slot %d ended with %s\n%s" % (i, rc, errtail(job)))
                    del running[i]
                    continue
                cur = read(job["cur"])
                if cur and time.time() - cur["t"] > HANG_S:
                    kill(p)
                    crash.append((cur, "hang"))
                    o = read(job["out"])
                    if o:
                        results[i] = o
                    t_viol = t_viol or time.time()
                    del running[i]
            # One slot found (and shrank) a violation: the others need not go on.
            if t_viol is not None and time.time() - t_viol > 3 and running:
                for i, (p, job) in list(running.items()):
                    kill(p)
                    o = read(job["out"])
                    if o:
                        results[i] = o
                    del running[i]
            if time.time() > deadline and running:
                for i, (p, job) in list(running.items()):
                    kill(p)
                    err.append("slot %d did not finish" % i)
                    o = read(job["out"])
                    if o:
                        results[i] = o
                    del running[i]
        viols = []
        for i, o in sorted(results.items()):
            if o.get("violation"):
                viols.append(o["violation"])
            if o.get("error"):
                err.append(o["error"])
        for cur, why in crash:
            k, text = "", ""
            for attempt in range(2):
                k, text = replay_case(base, jobdir, "confirm%d%d" % (len(viols), attempt), env, cur["sub"], cur["spec"], 100)
                if k in ("crash", "hang", "violation"):
                    break
            if k in ("crash", "hang", "violation"):
                viols.append({"sub": cur["sub"], "spec": cur["spec"], "msg": "%s (replayed: %s %s)" % (why, k, text)})
            elif why != "hang":
                viols.append({"sub": cur["sub"], "spec": cur["spec"], "msg": "process under test %s (not repeated on replay)" % why})
            else:
                err.append("a case took more than %d s but finished on replay: %s" % (HANG_S, json.dumps(cur)))
        # Evidence.
        import importlib.util
        subs, samples, hashes = {}, [], {}
        for i, o in sorted(results.items()):
            for n, st in o["subs"].items():
                d = subs.setdefault(n, {"evaluations": 0, "skipped_as_ambiguous": 0})
                d["evaluations"] += st["evaluations"]
                d["skipped_as_ambiguous"] += st["skipped"]
                d["slots_out_of_time"] = d.get("slots_out_of_time", 0) + bool(st["out_of_time"])
                hashes.setdefault(n, set()).update(st["hashes"])
                for s in st["samples"]:
                    if sum(1 for x in samples if x["check"] == n) < 2:
                        samples.append({"check": n, "case": s})
        for n in subs:
            subs[n]["distinct_nontrivial"] = len(hashes[n])
        rule = open(os.path.join(HERE, "props", module + ".py")).read()
        rule = eval(compile(_rule(rule), "rule", "eval"))
        ev = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
              "coverage": {"evaluations": sum(d["evaluations"] for d in subs.values()),
                           "distinct_nontrivial": sum(d["distinct_nontrivial"] for d in subs.values()),
                           "rule": rule, "samples": samples, "by_check": subs,
                           "known_findings_hit": sorted({s for o in results.values() for s in o["known"]})},
              "assumptions": ["up to five MPI ranks on one machine" if a.prop == "P23" else "single MPI rank", "seeds derive from VERIF_SEED; cases whose outcome hinges on the last digits of "
                              "single precision are recognised by the oracle and skipped (counted)"],
              "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
        json.dump(ev, open(os.path.join(evdir, a.prop + ".json"), "w"), indent=1)
        print("%s: %d cases, %d distinct non-trivial, %d skipped, %.1f s" % (
            a.prop, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"],
            sum(d["skipped_as_ambiguous"] for d in subs.values()), ev["wall_s"]))
        for n, d in sorted(subs.items()):
            print("  %-28s %6d cases %6d non-trivial %5d skipped%s" % (n, d["evaluations"], d["distinct_nontrivial"],
                  d["skipped_as_ambiguous"], "  (time budget reached)" if d["slots_out_of_time"] else ""))
        hit = {}
        for o in results.values():
            for s, d in o["known"].items():
                hit.setdefault(s, d)
        for s in sorted(known):
            print("KNOWN-FINDING: property=%s %s" % (a.prop, known[s]["what"]) + ("" if s in hit else " (not reached by this run)"))
        if viols:
            best = {}
            for v in viols:
                if v["sub"] not in best or len(json.dumps(v["spec"])) < len(json.dumps(best[v["sub"]]["spec"])):
                    best[v["sub"]] = v
            for n, v in sorted(best.items()):
                path = os.path.join(repdir, "%s-%s.json" % (a.prop, n))
                json.dump({"property": a.prop, "sub": n, "spec": v["spec"], "msg": v["msg"]}, open(path, "w"), indent=1)
                print("  %s: %s" % (n, v["msg"]))
                print("VIOLATION property=%s replay=%s" % (a.prop, path))
            return 1
        if err:
            print("HARNESS ERROR\n" + "\n".join(err)[:6000])
            return 2
        return 0
    finally:
        shutil.rmtree(jobdir, ignore_errors=True)


def _rule(src):
    import ast
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "RULE":
            return ast.Expression(node.value)
    return ast.Expression(ast.Constant(""))


if __name__ == "__main__":
    sys.exit(main())
