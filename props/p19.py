"""Caching: a cached function returns what the function returns, and forgets the least recently used result first."""
import threading
from collections import OrderedDict

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Skip, Sub, Violation, call, check, expect_raises, same

RULE = ("a case counts when the history contains at least one repeated call (lru), or at least two different argument lists "
        "of which one is repeated (arrays), or two or more threads (threads)")


class Model:
    """Bounded (or not) least-recently-used dictionary."""

    def __init__(self, maxsize, memory):
        self.maxsize, self.memory = maxsize, memory
        self.clear()

    def clear(self):
        self.d = OrderedDict()
        self.hits = self.misses = 0
        self.full = False

    def get(self, key):
        """-> True if it is a hit."""
        if key in self.d:
            self.d.move_to_end(key)
            self.hits += 1
            return True
        return False

    def put(self, key, available=None):
        self.misses += 1
        if self.memory is None and self.maxsize == 0:
            return
        if key in self.d:
            return
        if self.memory is not None:
            if self.full:
                self.d.popitem(last=False)
                self.d[key] = 1
            else:
                self.d[key] = 1
                self.full = available < self.memory
            return
        if self.maxsize is not None and len(self.d) >= self.maxsize:
            self.d.popitem(last=False)
        self.d[key] = 1


class Mem:
    def __init__(self, available):
        self.available = available


class Boom(Exception):
    pass


def run_lru(spec, ctx):
    from cosmic_profiles.common import caching
    import psutil
    calls = []
    avail = [10 ** 6]

    def f(*a, **k):
        """the documentation"""
        calls.append((a, tuple(sorted(k.items()))))
        if "boom" in a:
            raise Boom(str(a))
        return [a, tuple(sorted(k.items()))]

    kind = spec["kind"]
    mem = None
    maxsize = spec["maxsize"]
    if kind == "none":
        maxsize = None
    elif kind == "zero":
        maxsize = 0
    elif kind == "memory":
        mem = 1000
    saved = psutil.virtual_memory
    own = getattr(caching, "virtual_memory", None)
    try:
        psutil.virtual_memory = lambda: Mem(avail[0])
        if own is not None:
            caching.virtual_memory = psutil.virtual_memory
        g = call("lru_cache", caching.lru_cache, maxsize=maxsize, typed=spec["typed"], use_memory_up_to=mem if mem else spec["off"])(f)
        check(g.__name__ == "f" and g.__doc__ == "the documentation" and g.__wrapped__ is f, "the cached function does not look like the original")
        md = Model(maxsize, mem)
        last = {}
        rep = False
        for op in spec["ops"]:
            if op[0] == "clear":
                call("cache_clear", g.cache_clear)
                md.clear()
                last = {}
            elif op[0] == "low":
                avail[0] = 10
            elif op[0] == "high":
                avail[0] = 10 ** 6
            else:
                a, k = tuple(op[1]), dict(op[2])
                key = (a, tuple(sorted(k.items())), (tuple(type(x).__name__ for x in a), tuple(type(k[x]).__name__ for x in sorted(k))) if spec["typed"] else None)
                n = len(calls)
                hit = md.get(key)
                if "boom" in a:
                    try:
                        g(*a, **k)
                        raise Violation("an exception of the function was swallowed")
                    except Boom:
                        pass
                    check(len(calls) == n + 1, "a call that raised was answered from the cache")
                    continue
                r = call("cached function", g, *a, **k)
                check(r == [a, tuple(sorted(k.items()))] and (not spec["typed"] or repr(r) == repr([a, tuple(sorted(k.items()))])), "call with %s %s gave the result of %s" % (a, k, r))
                if not hit:
                    md.put(key, avail[0])
                rep = rep or hit
                check(len(calls) == n + (0 if hit else 1), "%s: the function was called %d times for %s %s after %d distinct arguments (%s entries allowed)" % (
                    "expected a hit" if hit else "expected a miss", len(calls) - n, a, k, len(last), maxsize))
                if hit:
                    check(r is last[key], "a hit returned an object other than the stored one")
                last[key] = r
            info = call("cache_info", g.cache_info)
            check((info.hits, info.misses, info.currsize) == (md.hits, md.misses, len(md.d)), "cache_info %s, expected hits %d, misses %d, size %d" % (
                info, md.hits, md.misses, len(md.d)))
            check(info.maxsize == (None if mem else maxsize), "cache_info maxsize %s" % (info.maxsize,))
        return rep
    finally:
        psutil.virtual_memory = saved
        if own is not None:
            caching.virtual_memory = own


def arr(d):
    x = np.array(d["v"], dtype=d["t"]).reshape(d["s"])
    how = d.get("how", "C")
    if how == "F":
        x = np.asfortranarray(x)
    elif how == "T":
        x = np.ascontiguousarray(x.T).T
    elif how == "rev":
        x = np.ascontiguousarray(x[::-1])[::-1]
    elif how == "strided":
        y = np.zeros(x.shape + (2,), dtype=x.dtype)
        y[..., 0] = x
        x = y[..., 0]
    return x


def run_arrays(spec, ctx):
    from cosmic_profiles.common import caching, config
    maxsize = spec["maxsize"]
    call("updateCachingMaxGBs", config.updateCachingMaxGBs, 0 if spec["plain"] else 1e-9)
    call("updateCachingMaxSize", config.updateCachingMaxSize, maxsize)
    try:
        na, nl = spec["na"], spec["nl"]
        calls = []

        def f(*a):
            calls.append(1)
            out = []
            for i, x in enumerate(a):
                if i < na:
                    check(isinstance(x, np.ndarray), "argument %d reached the function as %s" % (i, type(x)))
                    out.append(x.copy())
                    if x.size and x.flags.writeable:
                        x[...] = 0
                elif i < na + nl:
                    check(isinstance(x, list) and all(isinstance(y, list) for y in x), "argument %d reached the function as %r" % (i, x))
                    out.append([list(y) for y in x])
                    for y in x:
                        y.append(99)
                else:
                    out.append(x)
            return out

        g = caching.np_cache_factory(na, nl)(f)
        seen = OrderedDict()
        rep = False
        for op in spec["calls"]:
            op = spec["pool"][op % len(spec["pool"])]
            a = [arr(d) for d in op["a"][:na]]
            ls = [[list(y) for y in x] for x in op["l"][:nl]]
            rest = list(op["r"])
            keep = ([x.copy() for x in a], [[list(y) for y in x] for x in ls])
            n = len(calls)
            r = call("cached function", g, *(a + ls + rest))
            for x, y in zip(a, keep[0]):
                same(x, y, "array argument of the caller after the call")
            check(ls == keep[1], "the caller's lists changed")
            check(len(r) == na + nl + len(rest), "wrong number of arguments reached the function")
            for i in range(na):
                check(r[i].dtype == keep[0][i].dtype, "array %d of dtype %s was answered with the result for dtype %s" % (i, keep[0][i].dtype, r[i].dtype))
                same(r[i], keep[0][i], "array %d" % i)
            check(r[na:na + nl] == keep[1], "lists %r were answered with the result for %r" % (keep[1], r[na:na + nl]))
            check(r[na + nl:] == rest, "arguments %r were answered with the result for %r" % (rest, r[na + nl:]))
            key = (tuple((x.dtype.str, x.shape, x.tobytes()) for x in keep[0]), repr(keep[1]), repr(rest))
            nan = any(np.isnan(x).any() for x in keep[0] if x.dtype.kind == "f")
            # Keys that only compare equal (0.0 and -0.0) need not be told apart by the statistics.
            if not nan and key in seen and (not spec["plain"] or maxsize is None or list(seen).index(key) >= len(seen) - maxsize):
                check(len(calls) == n, "a repeated call was computed again (%d entries in the cache)" % len(seen))
                rep = True
            seen.pop(key, None)
            seen[key] = 1
            info = g.cache_info()
            check(info.hits + info.misses == len(calls) + info.hits and info.misses == len(calls), "cache_info %s after %d computations" % (info, len(calls)))
            if spec["plain"] and maxsize is not None:
                check(info.currsize <= maxsize, "cache_info %s with a maximum of %d" % (info, maxsize))
                check(info.maxsize == maxsize, "cache_info %s with a maximum of %d" % (info, maxsize))
        g.cache_clear()
        check(g.cache_info().currsize == 0 and g.cache_info().hits == 0 and g.cache_info().misses == 0, "cache_clear left %s" % (g.cache_info(),))
        return rep and len(seen) > 1
    finally:
        config.updateCachingMaxGBs(2)
        config.updateCachingMaxSize(128)


def run_threads(spec, ctx):
    """Several threads use one cache: every answer is right, the counters add up, the size limit holds."""
    from cosmic_profiles.common import caching
    lock = threading.Lock()
    n_calls = [0]

    def f(x):
        with lock:
            n_calls[0] += 1
        y = 0
        for i in range(spec["work"]):
            y += i
        return ("result", x)

    g = caching.lru_cache(maxsize=spec["maxsize"])(f)
    bad, done = [], [0]

    def job(seed):
        rng = np.random.default_rng(seed)
        for x in rng.integers(0, spec["keys"], size=60):
            x = int(x)
            try:
                r = g(x)
            except BaseException as e:
                bad.append("call raised %r" % e)
                return
            if r != ("result", x):
                bad.append("call with %d gave %r" % (x, r))
            with lock:
                done[0] += 1

    import sys
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=job, args=(spec["seed"] + i,)) for i in range(spec["threads"])]
        for t in ts:
            t.start()
        for t in ts:
            t.join(30)
        check(not any(t.is_alive() for t in ts), "threads sharing a cache are stuck")
    finally:
        sys.setswitchinterval(old)
    check(not bad, "; ".join(bad[:3]))
    info = g.cache_info()
    check(info.misses == n_calls[0], "cache_info %s after %d computations" % (info, n_calls[0]))
    check(info.hits + info.misses == done[0], "cache_info %s after %d calls" % (info, done[0]))
    check(info.currsize <= spec["maxsize"], "cache_info %s with a maximum of %d" % (info, spec["maxsize"]))
    # The limit is used to the full, and what is in the cache is still right.
    for x in range(spec["keys"]):
        check(g(x) == ("result", x), "after the threads: call with %d" % x)
    check(g.cache_info().currsize == min(spec["maxsize"], spec["keys"]), "cache_info %s after %d different calls" % (g.cache_info(), spec["keys"]))
    return spec["threads"] > 1


def run_race(spec, ctx):
    """Several threads compute missing entries at the same time (some of them the same entry), in an empty, filling or full cache.
    Afterwards the cache still holds as many results as it is allowed to, and it is the oldest ones that are forgotten."""
    from cosmic_profiles.common import caching
    import psutil
    lock = threading.Lock()
    cond = threading.Condition()
    state = {"race": False, "parties": 0, "there": 0, "n": 0}
    avail = [10 ** 6]

    def f(x):
        with lock:
            state["n"] += 1
        if state["race"]:
            with cond:
                state["there"] += 1
                cond.notify_all()
                cond.wait_for(lambda: state["there"] >= state["parties"], timeout=5)
        return ("result", x)

    saved = psutil.virtual_memory
    own = getattr(caching, "virtual_memory", None)
    try:
        psutil.virtual_memory = lambda: Mem(avail[0])
        if own is not None:
            caching.virtual_memory = psutil.virtual_memory
        mem = spec["memory"]
        g = caching.lru_cache(maxsize=spec["maxsize"], use_memory_up_to=1000 if mem else False)(f)
        fresh = 1000
        calls = 0
        for i in range(spec["fill"]):
            if mem and i == spec["fill"] - 1 and spec["low"]:
                avail[0] = 10
            g(fresh)
            fresh += 1
            calls += 1
        full = mem and spec["low"] and spec["fill"] > 0
        nontriv = False
        for keys in spec["rounds"]:
            keys = [fresh + k for k in keys]  # none of them is in the cache
            state.update(parties=len(keys), there=0, race=True)
            bad = []

            def job(k):
                try:
                    if g(k) != ("result", k):
                        bad.append("call with %d gave something else" % k)
                except BaseException as e:
                    bad.append("call raised %r" % e)

            before = g.cache_info().currsize
            ts = [threading.Thread(target=job, args=(k,)) for k in keys]
            for t in ts:
                t.start()
            for t in ts:
                t.join(60)
            state["race"] = False
            check(not bad, "; ".join(bad[:3]))
            calls += len(keys)
            fresh += 100
            info = call("cache_info", g.cache_info)
            check(info.hits + info.misses == calls and info.misses == state["n"], "cache_info %s after %d calls and %d computations" % (info, calls, state["n"]))
            want = before + len(set(keys))
            want = before if full else want if mem else min(want, spec["maxsize"])
            check(info.currsize == want, "%d threads computed %d missing entries at once: %d entries in the cache instead of %d" % (
                len(keys), len(set(keys)), info.currsize, want))
            nontriv |= len(set(keys)) < len(keys) and (full or info.currsize == spec["maxsize"])
            if mem and not full:
                avail[0] = 10  # the next entry is the last one that is added
                call("cached function after the race", g, fresh)
                fresh += 1
                calls += 1
                full = True
                want += 1
            for rep in (0, 1):
                size = want if mem else spec["maxsize"]
                new = list(range(fresh, fresh + size))
                fresh += size
                for k in new:
                    check(call("cached function after the race", g, k) == ("result", k), "wrong result after the race")
                n = state["n"]
                for k in new:
                    check(call("cached function after the race", g, k) == ("result", k), "wrong result after the race")
                calls += 2 * size
                check(state["n"] == n, "after the race, %d of the latest %d results had been forgotten (%s)" % (state["n"] - n, size, g.cache_info()))
                check(g.cache_info().currsize == size, "cache_info %s after the race, %d entries allowed" % (g.cache_info(), size))
        return nontriv
    finally:
        psutil.virtual_memory = saved
        if own is not None:
            caching.virtual_memory = own


def run_nested(spec, ctx):
    """A cached function that calls itself."""
    from cosmic_profiles.common import caching
    from collections import OrderedDict
    n_calls = [0]

    def fib(n):
        n_calls[0] += 1
        return n if n < 2 else g(n - 1) + g(n - 2)

    g = caching.lru_cache(maxsize=spec["maxsize"])(fib)
    a, b = 0, 1
    ref = []
    for i in range(40):
        ref.append(a)
        a, b = b, a + b
    for n in spec["ns"]:
        check(call("recursive cached function", g, n) == ref[n], "recursive cached function is wrong at %d" % n)
        check(spec["maxsize"] is None or g.cache_info().currsize <= spec["maxsize"], "cache_info %s" % (g.cache_info(),))
        check(g.cache_info().misses == n_calls[0], "cache_info %s after %d computations" % (g.cache_info(), n_calls[0]))
    return len(spec["ns"]) > 1


ATOM = st.one_of(st.integers(0, 4), st.sampled_from([0.0, 1.0, True, False]), st.sampled_from(["a", "b"]))
CALLS = st.tuples(st.just("call"), st.lists(st.one_of(ATOM, ATOM, st.just("boom"), st.tuples(st.integers(0, 4), st.integers(0, 4))), max_size=2),
                  st.dictionaries(st.sampled_from(["x", "y"]), ATOM, max_size=2))


def call_op(t):
    return ["call", list(t[1]), sorted(t[2].items())]


OPS = st.lists(st.one_of(CALLS.map(call_op), CALLS.map(call_op), CALLS.map(call_op), CALLS.map(call_op),
                         st.integers(0, 5).map(lambda v: ["call", [v], []]), st.integers(0, 5).map(lambda v: ["call", [v], []]),
                         st.sampled_from([["clear"], ["low"], ["high"]])), min_size=3, max_size=40)


@st.composite
def arrays(draw):
    t = draw(st.sampled_from(["int32", "int64", "float64", "float32", "bool"]))
    s = draw(st.sampled_from([[0], [1], [2], [4], [2, 2], [4, 1], [0, 3], [1, 1], [2, 1], [2, 3], [3, 2], [2, 1, 2]]))
    n = int(np.prod(s))
    v = draw(st.lists(st.sampled_from([0, 1] if t == "bool" else [0, 1, 2] if t[0] == "i" else [0.0, 1.0, 2.0, 0.5]), min_size=n, max_size=n))
    return {"t": t, "s": s, "v": v, "how": draw(st.sampled_from(["C", "C", "F", "T", "rev", "strided"]))}


LL = st.lists(st.lists(st.integers(0, 2), max_size=3), max_size=3)
POOL = st.lists(st.fixed_dictionaries({"a": st.lists(arrays(), min_size=3, max_size=3), "l": st.lists(LL, min_size=2, max_size=2),
                                       "r": st.lists(st.integers(0, 2), max_size=2)}), min_size=1, max_size=6)


def hashable(x):
    return tuple(hashable(v) for v in x) if isinstance(x, (list, tuple)) else x


def run_lru_(spec, ctx):
    # Equal arguments of different types: told apart when typed, else left to the implementation (so not generated).
    def one(v):
        return int(v) if not spec["typed"] and isinstance(v, (bool, float)) else hashable(v)
    s = dict(spec, ops=[[o[0]] + ([[one(v) for v in o[1]], [[k, one(v)] for k, v in o[2]]] if o[0] == "call" else []) for o in spec["ops"]])
    return run_lru(s, ctx)


SUBS = [
    Sub("lru", st.fixed_dictionaries({"kind": st.sampled_from(["bounded", "bounded", "bounded", "none", "zero", "memory", "memory"]), "maxsize": st.integers(1, 5),
                                      "typed": st.booleans(), "off": st.sampled_from([False, 0]), "ops": OPS}), run_lru_, quick=6000),
    Sub("arrays", st.fixed_dictionaries({"na": st.integers(1, 3), "nl": st.integers(0, 2), "maxsize": st.one_of(st.integers(1, 4), st.none(), st.just(128)),
                                         "plain": st.booleans(), "pool": POOL, "calls": st.lists(st.integers(0, 5), min_size=1, max_size=20)}), run_arrays, quick=5000),
    Sub("threads", st.fixed_dictionaries({"maxsize": st.integers(1, 6), "keys": st.integers(1, 9), "threads": st.integers(2, 6), "work": st.sampled_from([0, 20, 300]),
                                          "seed": gen.SEED}), run_threads, quick=400),
    Sub("race", st.fixed_dictionaries({"maxsize": st.integers(1, 4), "memory": st.booleans(), "low": st.booleans(), "fill": st.integers(0, 5),
                                       "rounds": st.lists(st.lists(st.integers(0, 2), min_size=2, max_size=4), min_size=1, max_size=3)}), run_race, quick=600),
    Sub("nested", st.fixed_dictionaries({"maxsize": st.one_of(st.integers(1, 6), st.none()), "ns": st.lists(st.integers(0, 14), min_size=1, max_size=5)}), run_nested,
        quick=400, weight=0.4),
]
