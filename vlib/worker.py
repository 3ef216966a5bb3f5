"""One slot of a check: runs every sub-check of a property on its share of generated cases (or replays one case).

argv: job file (JSON).  Output: the job's "out" file (JSON), the job's "cur" file names the case that is running.
"""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback


def main():
    job = json.load(open(sys.argv[1]))
    # The code under test prints a lot, from Python and from C.
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, "w")
    if job.get("cpu") is not None:
        try:
            os.sched_setaffinity(0, {job["cpu"]})
        except OSError:
            pass
    import warnings
    warnings.filterwarnings("ignore")
    import numpy as np
    np.seterr(all="ignore")
    sys.path.insert(0, job["verif"])
    from vlib import core
    import matplotlib
    matplotlib.use("Agg")
    mod = importlib.import_module("props." + job["module"])
    import cosmic_profiles
    assert os.path.abspath(cosmic_profiles.__file__).startswith(job["farm"]), cosmic_profiles.__file__
    out = {"subs": {}, "violation": None, "error": None, "done": False, "known": {}}
    ctx = core.Ctx(job["tmp"], known=job["known"])

    def save():
        tmp = job["out"] + ".tmp"
        with open(tmp, "w") as f:
            json.dump(out, f)
        os.replace(tmp, job["out"])

    def set_cur(sub, spec):
        with open(job["cur"], "w") as f:
            f.write(json.dumps({"sub": sub, "spec": core.jsonable(spec), "t": time.time()}))

    def evaluate(sub, spec):
        """-> ("ok", nontrivial) | ("skip", None) | ("violation", msg) | ("error", text)"""
        set_cur(sub.name, spec)
        ctx.fresh()
        try:
            r = sub.run(spec, ctx)
            return "ok", bool(r)
        except core.Skip:
            return "skip", None
        except core.Violation as e:
            if e.sig is not None and e.sig in ctx.known:
                out["known"].setdefault(e.sig, {"msg": str(e), "spec": core.jsonable(spec), "count": 0})["count"] += 1
                return "ok", True
            return "violation", str(e)
        except (KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:
            if core.is_package_error(e.__traceback__):
                return "violation", "unexpected " + core.describe(e)
            if isinstance(e, (AttributeError, LookupError, TypeError, ValueError, ArithmeticError)) and not isinstance(e, (json.JSONDecodeError, UnicodeError)) and not str(e).startswith("module"):
                # On the unchanged tree the oracles digest every result: here the package returned something malformed.
                return "violation", "malformed result: " + traceback.format_exc()[-1500:]
            return "error", traceback.format_exc()[-4000:]
        finally:
            try:
                import matplotlib.pyplot as plt
                plt.close("all")
            except Exception:
                pass

    subs = {s.name: s for s in mod.SUBS}
    if job.get("replay"):
        s = subs[job["replay"]["sub"]]
        kind, val = evaluate(s, job["replay"]["spec"])
        out["replay"] = [kind, val]
        out["done"] = True
        save()
        return

    import hypothesis
    from hypothesis import HealthCheck, Phase, given, seed as hseed, settings
    tw = sum(s.weight for s in mod.SUBS)
    order = list(mod.SUBS)
    k = job["slot"] % len(order)
    order = order[k:] + order[:k]
    t_start = time.time()
    done_w = 0.0
    for s in order:
        # The time left is shared by weight among the sub-checks still to run.
        left = job["budget"] - (time.time() - t_start)
        budget = max(1.0, left * s.weight / max(1e-9, tw - done_w))
        done_w += s.weight
        st = out["subs"][s.name] = {"evaluations": 0, "nontrivial": 0, "skipped": 0, "hashes": [], "samples": [], "wall": 0.0,
                                    "out_of_time": False}
        n = int(2.5 * s.quick) if job["tier"] == "quick" else s.thorough
        n = max(2, -(-n // job["slots"]))
        t_end = time.time() + budget
        t_sub = time.time()
        best = {"fail": None, "t": None}
        seen = set()

        def record(spec, kind, val):
            st["evaluations"] += 1
            if kind == "skip":
                st["skipped"] += 1
            if kind == "ok" and val:
                h = hashlib.sha1(core.dumps(spec).encode()).hexdigest()[:12]
                if h not in seen:
                    seen.add(h)
                    st["nontrivial"] += 1
                    if len(st["hashes"]) < 20000:
                        st["hashes"].append(h)
                    if len(st["samples"]) < 2:
                        st["samples"].append(core.jsonable(spec))

        class Fail(Exception):
            pass

        class HarnessError(Exception):
            pass

        def one(spec):
            if best["fail"] is None:
                if time.time() > t_end:
                    st["out_of_time"] = True
                    return
            elif time.time() - best["t"] > job["shrink_s"]:
                if core.dumps(spec) != best["fail"][0]:
                    return
                raise Fail()
            kind, val = evaluate(s, spec)
            record(spec, kind, val)
            if kind == "error":
                out["error"] = "%s: %s\nspec: %s" % (s.name, val, core.dumps(spec))
                raise HarnessError(val)
            if kind == "violation":
                d = core.dumps(spec)
                if best["fail"] is None:
                    best["t"] = time.time()
                    out["violation"] = {"sub": s.name, "spec": core.jsonable(spec), "msg": val, "first": True}
                    save()
                if best["fail"] is None or len(d) <= len(best["fail"][0]):
                    best["fail"] = (d, core.jsonable(spec), val)
                raise Fail()

        try:
            if job["slot"] == 0:
                for spec in s.examples:
                    one(spec)
            sd = int(hashlib.sha256(("%s|%s|%s|%s" % (job["seed"], job["module"], s.name, job["slot"])).encode()).hexdigest()[:12], 16)
            test = given(s.strategy)(one)
            test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                            suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
                            report_multiple_bugs=False, print_blob=False)(test)
            test = hseed(sd)(test)
            test()
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
            if best["fail"] is None and out["error"] is None:
                out["error"] = "%s: %s" % (s.name, traceback.format_exc()[-4000:])
        st["wall"] = round(time.time() - t_sub, 2)
        if best["fail"] is not None:
            out["violation"] = {"sub": s.name, "spec": best["fail"][1], "msg": best["fail"][2]}
            break
        if out["error"] is not None:
            break
        save()
    out["done"] = True
    save()


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)  # do not wait for pools or MPI teardown
