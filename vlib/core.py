"""What the property modules are written with: Violation, Sub, the case context."""
import ctypes
import json
import math
import os
import shutil
import sys
import traceback

import numpy as np


class Violation(Exception):
    """The code under test broke the property.  `sig` identifies the defect for the known-findings file."""

    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig


class Skip(Exception):
    """The generated case is ambiguous for the oracle (or empty); it counts as trivial."""


class Sub:
    """One executable check.  run(spec, ctx) raises Violation, raises Skip, or returns True (non-trivial) / False."""

    def __init__(self, name, strategy, run, quick, thorough=None, weight=1.0, examples=()):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 15
        self.weight = weight
        self.examples = list(examples)


def is_package_error(tb):
    for f in traceback.extract_tb(tb):
        fn = f.filename.replace("\\", "/")
        if "cosmic_profiles/" in fn and "/verif/props" not in fn and "/verif/vlib" not in fn:
            return True
    return False


def describe(e):
    return "%s: %s" % (type(e).__name__, str(e)[:400])


class Ctx:
    def __init__(self, tmp, known=()):
        self.tmp_root = tmp
        self.known = set(known)
        self.known_hits = {}
        self.tmp = os.path.join(tmp, "case")
        self._gomp = None
        self.n = 0

    def fresh(self):
        """Called before every case: scratch directory, unit system, thread count as in a new session."""
        shutil.rmtree(self.tmp, ignore_errors=True)
        self.n += 1
        # A new name for every case: parts of the package cache by path.
        self.tmp = os.path.join(self.tmp_root, "case%d" % self.n)
        os.makedirs(self.tmp)
        os.chdir(self.tmp)
        from cosmic_profiles.common import config
        config.updateInUnitSystem('Mpc/h', 'E+10Msun/h', 'km/s', 0.6774)
        config.updateOutUnitSystem('Mpc/h', 'E+10Msun/h', 'km/s', 0.6774)
        self.threads(2)

    def threads(self, n):
        if self._gomp is None:
            self._gomp = ctypes.CDLL("libgomp.so.1")
        self._gomp.omp_set_num_threads(int(n))

    def dir(self, name):
        d = os.path.join(self.tmp, name)
        os.makedirs(d, exist_ok=True)
        return d


def call(what, fn, *a, **k):
    """Call into the package; any exception is a violation of the property under test."""
    try:
        return fn(*a, **k)
    except (Violation, Skip):
        raise
    except BaseException as e:  # SystemExit included: the package must not end the process
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        raise Violation("%s raised %s" % (what, describe(e)))


def expect_raises(what, exc, fn, *a, sig=None, **k):
    try:
        r = fn(*a, **k)
    except exc:
        return
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        raise Violation("%s raised %s instead of %s" % (what, describe(e), exc), sig=sig)
    raise Violation("%s was accepted (returned %s) instead of raising %s" % (what, repr(r)[:200], exc), sig=sig)


def check(cond, msg, sig=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, sig=sig)


def close(a, b, rtol=1e-6, atol=0.0, what="values", sig=None, nan_ok=True):
    a = np.asarray(a, dtype=np.float64)
    b = np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        raise Violation("%s: shape %s, expected %s" % (what, a.shape, b.shape), sig=sig)
    if a.size == 0:
        return
    na, nb = np.isnan(a), np.isnan(b)
    if np.any(na != nb):
        i = np.argwhere(na != nb)[0]
        raise Violation("%s: at %s got %r, expected %r (NaN mismatch)" % (what, tuple(i), a[tuple(i)], b[tuple(i)]), sig=sig)
    with np.errstate(invalid="ignore"):
        bad = ~na & ~((a == b) | (np.abs(a - b) <= atol + rtol * np.abs(b)))
    if np.any(bad):
        i = tuple(np.argwhere(bad)[0])
        raise Violation("%s: at %s got %.10g, expected %.10g (%d of %d differ)" % (what, i, a[i], b[i], bad.sum(), a.size), sig=sig)


def same(a, b, what="values", sig=None):
    """Exactly equal, NaN equal to NaN; structured arrays field by field."""
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.names:
        check(a.dtype == b.dtype, "%s: dtype %s vs %s" % (what, a.dtype, b.dtype), sig)
        for n in a.dtype.names:
            same(a[n], b[n], what + "." + n, sig)
        return
    if a.shape != b.shape or not np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"):
        if a.shape == b.shape:
            bad = ~((a == b) | ((a != a) & (b != b)))
            i = tuple(np.argwhere(bad)[0])
            raise Violation("%s: at %s %r vs %r" % (what, i, a[i], b[i]), sig=sig)
        raise Violation("%s: shape %s vs %s" % (what, a.shape, b.shape), sig=sig)


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, bool) or x is None or isinstance(x, (int, str)):
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else str(x)
    return repr(x)


def dumps(x):
    return json.dumps(jsonable(x), sort_keys=True)
