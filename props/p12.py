"""Local (per radius) shapes."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, obj, ref
from vlib.core import Skip, Sub, Violation, call, check, close

RULE = ("a case counts when at least one (object, radius) pair has an unambiguous converged reference solution with axis ratio s < 0.98, "
        "or (unconverged) when a pair must not converge")


def offsets(sc, k, center):
    xu = ref.unwrap(sc.xyz[sc.cat[k]], sc.L)
    if not ref.compact(xu, sc.L):
        raise Skip("wide")
    m = sc.m[sc.cat[k]]
    return ref.rel(xu, ref.center(xu, m, center, ref.extent(xu)), sc.L), m


def compare(got, k, j, i, r, f, what, rt=2e-4):
    """One converged/unconverged (object, radius): got[...] against reference Shape r; f: Out length per internal length."""
    g = {n: np.asarray(got[n][j, i]) if got[n].ndim > 1 or i is not None else None for n in got.dtype.names}
    conv = bool(g["is_conv"])
    if conv != r.conv:
        raise Violation("%s: is_conv is %s, the reference iteration %s (%d particles)" % (what, conv, "converges" if r.conv else "does not converge", r.n))
    if not r.conv:
        for n in ("d", "q", "s", "minor", "inter", "major"):
            check(np.all(np.isnan(g[n])), "%s: unconverged but %s = %s" % (what, n, g[n]))
        return False
    close(g["d"], r.d * f, rtol=1e-5, what=what + ": d")
    close(g["q"], r.q, rtol=rt, what=what + ": q")
    close(g["s"], r.s, rtol=rt, what=what + ": s")
    for n, a, gap in (("major", 2, r.gaps[0]), ("inter", 1, min(r.gaps)), ("minor", 0, r.gaps[1])):
        v = g[n].astype(float)
        check(abs(np.linalg.norm(v) - 1) < 1e-5, "%s: %s axis has length %g" % (what, n, np.linalg.norm(v)))
        if gap > 1e-2:
            c = abs(float(v @ r.axes[a]))
            if c < 1 - 1e-4:
                raise Violation("%s: %s axis is %s, expected +-%s" % (what, n, v, r.axes[a]))
    return True


def run_ref(spec, ctx):
    sc = gen.make_scene(spec["scene"])
    R = gen.make_rads(spec["rads"])
    if np.any(np.diff(R) <= 1e-6):
        raise Skip
    lin, min_, lout, mout = obj.units("Mpc/h", "E+10Msun/h", spec["outl"], spec["outm"])
    f = gen.length_cm("Mpc/h", 0.6774) / lout
    ctx.threads(spec["threads"])
    o = obj.direct(sc, ctx, spec["center"])
    sel = list(range(len(sc.cat)))
    if spec["rev"]:
        sel = sel[::-1]
    tol, wall, imin = spec["tol"], spec["wall"], spec["imin"]
    cfg = obj.katz_config(R, tol=tol, wall=wall, imin=imin, reduced=spec["reduced"], shell=spec["shell"])
    got = call("getShapeCatLocal", o.getShapeCatLocal, sel, cfg)
    check(got["q"].shape == (len(sel), len(R)) and got["major"].shape == (len(sel), len(R), 3),
          "getShapeCatLocal: shapes %s, %s for %d objects and %d radii" % (got["q"].shape, got["major"].shape, len(sel), len(R)))
    nontriv = done = False
    for j, k in enumerate(sel):
        try:
            d, m = offsets(sc, k, spec["center"])
        except Skip:
            continue
        if ref.extent(d) < 1e-6 * max(np.abs(sc.xyz).max(), sc.L):
            continue
        rs = ref.local_shapes(d, m, sc.r200[k], R, tol, wall, imin, spec["reduced"], spec["shell"])
        for i, r in enumerate(rs):
            if isinstance(r, Skip):
                continue
            done = True
            c = compare(got, k, j, i, r, f, "object %d (%d particles) at %g R200 (%s%s)" % (
                k, len(m), R[i], "shell" if spec["shell"] else "ellipsoid", ", reduced" if spec["reduced"] else ""))
            nontriv |= c and r.s < 0.98
    if not done:
        raise Skip
    return nontriv


def run_unconv(spec, ctx):
    """Too few particles, or too few iterations allowed: not converged, everything NaN, neighbours unaffected."""
    sc = gen.make_scene(spec["scene"])
    R = np.sort(np.unique(np.round(gen.make_rads(spec["rads"]), 6)))
    o = obj.direct(sc, ctx, "com")
    sel = list(range(len(sc.cat)))
    kind = spec["kind"]
    r200 = None
    if kind == "imin":
        cfg = obj.katz_config(R, imin=max(sc.n) + 1, reduced=spec["reduced"], shell=spec["shell"])
    elif kind == "wall":
        cfg = obj.katz_config(R, wall=0, imin=1, reduced=spec["reduced"], shell=spec["shell"])
    else:
        o = obj.direct(sc, ctx, "com", r200=np.zeros(len(sc.cat)))
        cfg = obj.katz_config(R, imin=1, reduced=spec["reduced"], shell=spec["shell"])
    got = call("getShapeCatLocal", o.getShapeCatLocal, sel, cfg)
    check(not np.any(got["is_conv"]), "%s: shapes reported as converged" % kind)
    for n in ("d", "q", "s", "minor", "inter", "major"):
        check(np.all(np.isnan(got[n])), "%s: %s not NaN for unconverged shapes" % (kind, n))
    return True


def flat(kind, n, rng, size):
    """Offsets of particles without extent in some direction, or with one exactly at the centre."""
    u = 2.0 ** -6
    x = rng.integers(-12, 13, size=(n, 3)) * u
    x = np.concatenate([x, -x])
    ax = rng.permutation(3)
    if kind == "plane":
        x[:, ax[0]] = 0
    elif kind == "line":
        x[:, ax[:2]] = 0
    elif kind == "diagonal":
        x = x[:, :1] * np.array([1.0, 1.0, -1.0])
    elif kind == "point":
        x[:] = 0
    elif kind == "pair":
        x = np.array([[u, 0, 0], [-u, 0, 0]]) * 4
    else:
        x = np.concatenate([x, np.zeros((1 + n % 3, 3))])
    return x * size


def run_flat(spec, ctx):
    """Objects without extent in some direction, or with particles exactly at the centre: no error, no harm to the neighbours, and a proper ellipsoid
    wherever convergence is reported."""
    rng = np.random.default_rng(spec["seed"])
    size = 2.0 ** spec["log2"]
    x = flat(spec["kind"], spec["n"], rng, size) + np.array([3.0, 5.0, 4.0]) * size
    rot = gen.rotation(rng)
    y = rng.normal(size=(spec["m"], 3)) * np.array([0.3, 0.2, 0.12]) @ rot * size + np.array([3.0, 5.0, 4.5]) * size
    sc = gen.Scene()
    first = spec["first"]
    sc.xyz = np.concatenate([x, y] if first else [y, x])
    sc.m = np.full(len(sc.xyz), 0.5)
    na = len(x) if first else len(y)
    sc.cat = [list(range(na)), list(range(na, len(sc.xyz)))]
    sc.r200, sc.L = np.array([0.6, 0.6]) * size, 16.0 * size if spec["periodic"] else 0.0
    R = gen.make_rads(spec["rads"])
    if np.any(np.diff(R) <= 1e-6):
        raise Skip
    cfg = obj.katz_config(R, imin=spec["imin"], reduced=spec["reduced"], shell=spec["shell"])
    obj.units()
    o = obj.direct(sc, ctx, spec["center"])
    j = 1 if first else 0
    for name in ("getShapeCatLocal", "getShapeCatGlobal"):
        get = getattr(o, name)
        both = call("%s with an object whose particles form a %s" % (name, spec["kind"]), get, [0, 1], cfg)
        alone = call(name, get, [j], cfg)
        for f in both.dtype.names:
            check(np.array_equal(np.asarray(both[f][j]), np.asarray(alone[f][0]), equal_nan=True), "%s: %s of an object changed by a neighbour forming a %s" % (
                name, f, spec["kind"]))
        c = np.asarray(both["is_conv"]).astype(bool)
        q, s = np.asarray(both["q"])[c], np.asarray(both["s"])[c]
        check(np.all(s > 0) and np.all(s <= q * (1 + 1e-6)) and np.all(q <= 1 + 1e-6), "%s: axis ratios of converged shapes out of order: q=%s s=%s" % (name, q, s))
        for f in ("q", "s", "minor", "inter", "major"):
            check(np.all(np.isnan(np.asarray(both[f])[~c])), "%s: %s not NaN for unconverged shapes" % (name, f))
        if spec["kind"] in ("point", "pair", "line"):
            check(not np.any(np.asarray(both["is_conv"][1 - j])), "%s: particles forming a %s reported as a converged ellipsoid" % (name, spec["kind"]))
    return True


CENTER = st.sampled_from(["com", "mode"])
BASE = {
    "rads": gen.rads_strategy(1, 6), "center": CENTER, "tol": st.sampled_from([1e-2, 1e-1, 1e-3]), "wall": st.sampled_from([100, 100, 100, 3, 6]),
    "imin": st.sampled_from([4, 10, 30]), "reduced": st.booleans(), "rev": st.booleans(), "threads": st.sampled_from([1, 2, 3]),
    "outl": st.sampled_from(gen.LENGTHS), "outm": st.sampled_from(gen.MASSES)}
SUBS = [
    Sub("ellipsoid", st.fixed_dictionaries(dict(BASE, scene=gen.scene_strategy(nobj=(1, 4), nmin=4, nmax=250), shell=st.just(False))),
        run_ref, quick=3000, weight=2),
    Sub("shell", st.fixed_dictionaries(dict(BASE, scene=gen.scene_strategy(nobj=(1, 3), nmin=20, nmax=500), shell=st.just(True))),
        run_ref, quick=3000, weight=2),
    Sub("unconverged", st.fixed_dictionaries({"scene": gen.scene_strategy(nobj=(1, 3), nmin=4, nmax=60), "rads": gen.rads_strategy(1, 5),
        "kind": st.sampled_from(["imin", "wall", "r200"]), "reduced": st.booleans(), "shell": st.booleans()}), run_unconv, quick=400, weight=0.3),
    Sub("flat", st.fixed_dictionaries({"seed": gen.SEED, "kind": st.sampled_from(["plane", "line", "diagonal", "point", "pair", "centred"]), "n": st.integers(1, 40),
                                       "m": st.integers(1, 60), "log2": st.integers(-6, 3), "first": st.booleans(), "periodic": st.booleans(),
                                       "rads": gen.rads_strategy(1, 5), "imin": st.integers(1, 8), "reduced": st.booleans(), "shell": st.booleans(),
                                       "center": CENTER}), run_flat, quick=500, weight=0.7),
]
