"""Statistics, mass bins and geometric helpers."""
import contextlib
import io
import re
import time

import contextlib
import io
import re
import time

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.core import Skip, Sub, Violation, call, check, close, expect_raises, same

RULE = ("blocks: at least two objects in at least two mass bins; averages, independence, shapes: at least one bin holds two or more values; "
        "geometry: at least one object of five or more particles; numbers: every case")


def run_blocks(spec, ctx):
    from cosmic_profiles.common import cosmo_tools as T
    rng = np.random.default_rng(spec["seed"])
    n, nb = spec["n"], spec["nb"]
    m = np.exp(rng.normal(size=n) * 2)
    if spec["ties"]:
        m = np.round(m, 0) + 1
    c = rng.uniform(size=(n, 3))
    v = rng.normal(size=(n, 3)) if spec["v"] and n else None
    m0, c0 = m.copy(), c.copy()
    got = call("M_split", T.M_split, m, c, time.time(), v=v, NB_BINS=nb)
    same(m, m0, "masses handed to M_split")
    same(c, c0, "centres handed to M_split")
    edges, mg, cg, ig = got[0], got[1], got[2], got[-1]
    check(len(got) == (5 if v is not None else 4), "M_split returned %d items" % len(got))
    if n == 0:
        check(len(edges) == len(mg) == len(cg) == len(ig) == 0, "M_split of nothing is not empty")
        return False
    check(1 <= len(mg) <= nb, "%d mass bins asked for, %d made" % (nb, len(mg)))
    check(len(edges) == len(mg) + 1 and len(cg) == len(mg) == len(ig), "edges, masses, centres, indices of %d, %d, %d, %d bins" % (len(edges) - 1, len(mg), len(cg), len(ig)))
    size = -(-n // nb)
    check(all(len(g) == size for g in mg[:-1]) and 1 <= len(mg[-1]) <= size, "bins of %s objects, expected %d each (except the last)" % ([len(g) for g in mg], size))
    flat = [int(i) for g in ig for i in g]
    check(sorted(flat) == list(range(n)), "mass bins hold objects %s, not each of %d once" % (flat, n))
    for g in range(len(mg)):
        same(np.array(mg[g]), m[ig[g]], "masses of bin %d" % g)
        same(np.array(cg[g]), c[ig[g]], "centres of bin %d" % g)
        if v is not None:
            same(np.array(got[3][g]), v[ig[g]], "vectors of bin %d" % g)
        check(edges[g] == min(mg[g]), "lower edge of bin %d is %r, its lightest object %r" % (g, edges[g], min(mg[g])))
    check(edges[-1] == m.max(), "upper edge is %r, heaviest object %r" % (edges[-1], m.max()))
    same(np.concatenate([np.array(g) for g in mg]), np.sort(m), "masses in bin order")
    k = 1 + spec["seed"] % 7
    lst = list(range(n))
    bl = list(T.getBlocks(lst, k))
    check([x for b in bl for x in b] == lst and all(len(b) == k for b in bl[:-1]) and all(0 < len(b) <= k for b in bl), "getBlocks(%d, %d) = %r" % (n, k, bl))
    return n >= 2 and len(mg) >= 2


def bins(rng, nb, nmax, lo=0):
    return [list(rng.choice([rng.normal(size=200), rng.uniform(size=200), np.round(rng.uniform(size=200), 1)])[: int(rng.integers(lo, nmax + 1))]) for _ in range(nb)]


def run_averages(spec, ctx):
    from cosmic_profiles.common import cosmo_tools as T
    rng = np.random.default_rng(spec["seed"])
    how = spec["how"]
    y = bins(rng, spec["nb"], spec["nmax"], 1 if how == "bootstrap" else 2 if how == "SEM" else 0)
    y0 = [list(z) for z in y]
    f = T.getMeanOrMedianAndError
    mean, lo, hi = call("getMeanOrMedianAndError", f, y, how, *([spec["nreal"]] if how == "bootstrap" else []))
    check(y == y0, "getMeanOrMedianAndError changed its data")
    exp = [(np.median(z) if how == "median_quantile" else np.mean(z)) if z else np.nan for z in y]
    close(mean, exp, rtol=1e-10, atol=1e-13, what="average per bin (%s)" % how)
    check(len(lo) == len(hi) == len(y), "errors of %d, %d bins, not %d" % (len(lo), len(hi), len(y)))
    if how == "SEM":
        e = [np.sqrt(np.sum((np.array(z) - np.mean(z)) ** 2) / (len(z) - 1) / len(z)) for z in y]
        close(lo, e, rtol=1e-9, atol=1e-13, what="standard error of the mean, low")
        close(hi, e, rtol=1e-9, atol=1e-13, what="standard error of the mean, high")
    if how == "bootstrap":
        same(np.array(lo), np.array(hi), "bootstrap error low against high")
        for z, e in zip(y, lo):
            check(np.isfinite(e) and e >= 0, "bootstrap error %r" % e)
            if len(set(z)) == 1:
                check(e < 1e-12, "bootstrap error %r of identical values" % e)
            sem = np.std(z) / np.sqrt(len(z))
            # chi-square with nreal - 1 degrees of freedom: a factor of 4 is beyond 1e-9 for 40 realisations.
            if spec["nreal"] >= 40 and len(z) >= 8 and sem > 1e-9:
                check(sem / 4 < e < 4 * sem, "bootstrap error %g, standard error of the mean %g (%d values)" % (e, sem, len(z)))
    expect_raises("an unknown error method", Exception, f, y, "variance")
    return any(len(z) >= 2 for z in y)


def run_shapes(spec, ctx):
    """Averages of profiles per normalised radius."""
    from cosmic_profiles.shape_profs import shape_profs_tools as T
    rng = np.random.default_rng(spec["seed"])
    n = spec["n"]
    R = gen.make_rads(spec["R"])
    if len(R) > 1 and np.min(np.diff(R)) < 1e-4:
        raise Skip
    r200 = 10.0 ** rng.uniform(-1, 1, size=n)
    d = r200[:, None] * R[None, :]
    if spec["jitter"] and len(R) > 1:
        # Radii that are not quite the nominal ones: each value still belongs to the nearest.
        d = d + r200[:, None] * rng.uniform(-1.4, 1.4, size=(n, len(R))) * np.min(np.diff(R))
    val = rng.uniform(size=(n, len(R)))
    hole = rng.uniform(size=val.shape) < spec["hole"]
    val[hole] = np.nan
    if spec["dnan"]:
        d[hole] = np.nan
    how = spec["how"]
    groups = [[int(i) for i in g] for g in np.array_split(rng.permutation(n), min(3, n))]
    near = np.abs(d[:, :, None] / r200[:, None, None] - R[None, None, :])
    if len(R) > 1:
        srt = np.sort(near, axis=2)
        if np.any((srt[:, :, 1] - srt[:, :, 0])[~np.isnan(val)] < 1e-9):
            raise Skip("half way between radii")

    def expected(objs):
        y = [[] for _ in R]
        for o in objs:
            for k in range(len(R)):
                if not np.isnan(val[o, k]):
                    y[int(np.argmin(near[o, k]))].append(val[o, k])
        return y

    big = False
    for what, objs, fn, args in [("getShape", range(n), T.getShape, (d, val, how, R, r200))] + [
            ("getShapeMs", groups[g], T.getShapeMs, (d, groups, g, val, how, R, r200)) for g in range(len(groups))]:
        y = expected(objs)
        if how != "median_quantile" and any(len(z) < 2 for z in y):
            continue
        mean, lo, hi = call(what, fn, *[a.copy() if hasattr(a, "copy") and not isinstance(a, list) else a for a in args])
        close(mean, [(np.median(z) if how == "median_quantile" else np.mean(z)) if z else np.nan for z in y], rtol=1e-10, what="%s (%s)" % (what, how))
        if how == "SEM":
            close(lo, [np.std(z, ddof=1) / np.sqrt(len(z)) for z in y], rtol=1e-9, atol=1e-13, what=what + " error")
        big = big or any(len(z) >= 2 for z in y)
    return big


def chi2_ref(occ):
    from scipy import stats
    occ = np.asarray(occ, dtype=np.float64)
    k = occ.sum(axis=0) > 0
    r = occ.sum(axis=1) > 0
    dof = (occ.shape[0] - 1) * (occ.shape[1] - 1)
    e = np.outer(occ.sum(axis=1), occ.sum(axis=0)) / occ.sum()
    c = float(np.sum(((occ - e) ** 2)[r][:, k] / e[r][:, k]))
    return c, float(stats.chi2.sf(c, dof)), dof


def run_independence(spec, ctx):
    from cosmic_profiles.common import cosmo_tools as T
    rng = np.random.default_rng(spec["seed"])
    # Tables.
    shape = (2, int(rng.integers(2, 9)))
    occ = rng.integers(0, 1 + spec["nmax"], size=shape) * (rng.uniform(size=shape) > spec["zero"])
    if spec["kind"] == "float":
        occ = occ * 0.5
    got = call("chiSquareToICore", T.chiSquareToICore, occ)
    if (occ == 0).all():
        check(all(np.isnan(g) for g in got), "empty table gives %r" % (got,))
    else:
        close(got, chi2_ref(occ), rtol=1e-9, atol=1e-11, what="chi square, p, degrees of freedom")
        close(call("chiSquareToICore", T.chiSquareToICore, occ[::-1]), got, rtol=1e-9, atol=1e-11, what="chi square with the samples exchanged")
    # Samples with values in [0, 1].
    nb = spec["nb"]
    sets = []
    for _ in range(2):
        y = [list(rng.uniform(size=int(rng.integers(0, spec["nmax"] + 1))) ** float(rng.choice([1.0, 2.0]))) for _ in range(nb)]
        sets.append(y)
    x, y = sets
    for z in x + y:
        if any(abs((v * 9) % 1 - 0.5) < 1e-9 for v in z):
            raise Skip
    occ = np.zeros((2, 10 * nb))
    for i, s in enumerate(sets):
        for b in range(nb):
            for v in s[b]:
                occ[i, 10 * b + int(round(v * 9))] += 1
    got = call("chiSquareToIMultiDim", T.chiSquareToIMultiDim, x, y)
    if occ.sum() == 0:
        check(all(np.isnan(g) for g in got), "empty samples give %r" % (got,))
    else:
        close(got, chi2_ref(occ), rtol=1e-9, atol=1e-11, what="chi square of binned samples")
    expect_raises("samples with different numbers of bins", Exception, T.chiSquareToIMultiDim, x, y + [[0.5]])
    # Shape curves with radii up to R200.
    bins_, start = int(rng.integers(2, 7)), -float(rng.integers(1, 3))
    R = np.logspace(start, 0, bins_ + 1)
    curves = []
    for _ in range(2):
        n = int(rng.integers(1, 6))
        r200 = 10.0 ** rng.uniform(-1, 1, size=n)
        d = r200[:, None] * R[None, :]
        p = rng.uniform(size=(n, bins_ + 1))
        p[:, 1:-1][rng.uniform(size=(n, bins_ - 1)) < 0.2] = np.nan
        curves.append((d, p))
    if not any(abs((v * 9) % 1 - 0.5) < 1e-9 for c in curves for v in c[1].ravel()):
        occ = np.zeros((2, 10 * (bins_ + 1)))
        for i, (d, p) in enumerate(curves):
            for b in range(bins_ + 1):
                for v in p[:, b][~np.isnan(p[:, b])]:
                    # The outermost radius: above R200 by rounding or not, it counts (log10 of a ratio of equal numbers is zero).
                    occ[i, 10 * b + int(round(v * 9))] += 1
        (d1, p1), (d2, p2) = curves
        got = call("chiSquareToIShapeCurve", T.chiSquareToIShapeCurve, d1, p1, d2, p2, start, 0, bins_)
        close(got, chi2_ref(occ), rtol=1e-9, atol=1e-11, what="chi square of shape curves")
    # Kolmogorov-Smirnov.
    a, b = rng.normal(size=int(rng.integers(0, 30))), rng.normal(size=int(rng.integers(0, 30))) + rng.choice([0.0, 1.0])
    if spec["kind"] == "float":
        a, b = np.round(a, 1), np.round(b, 1)
    s, p = call("KSTest", T.KSTest, a, b)
    if len(a) == 0 or len(b) == 0:
        check(np.isnan(s) and np.isnan(p), "KSTest with an empty sample gives %r" % ((s, p),))
    else:
        grid = np.concatenate([a, b])
        e = max(abs(np.mean(a <= g) - np.mean(b <= g)) for g in grid)
        close(s, e, rtol=1e-9, atol=1e-12, what="Kolmogorov-Smirnov distance")
        check(0 <= p <= 1, "Kolmogorov-Smirnov p-value %r" % p)
        close(T.KSTest(b, a), (s, p), rtol=1e-6, atol=1e-9, what="KSTest with the samples exchanged")
        s0, p0 = T.KSTest(list(a), list(a))
        check(s0 == 0 and p0 > 0.999, "KSTest of a sample with itself: %r, %r" % (s0, p0))
        if abs(len(a) - len(b)) >= 0 and e == 1 and min(len(a), len(b)) >= 10:
            check(p < 1e-3, "disjoint samples: p = %r" % p)
    return sum(len(z) for z in x) >= 2


def run_geometry(spec, ctx):
    from cosmic_profiles.common import python_routines as P
    from cosmic_profiles.common import cosmo_tools
    sc = gen.make_scene(spec["scene"])
    rng = np.random.default_rng(spec["seed"])
    how, frac = spec["center"], spec["frac"]
    sizes = np.array(sc.n, dtype=np.int32)
    cat = np.array([i for c in sc.cat for i in c], dtype=np.int32)
    exp_cat, sl = [], max(float(np.abs(sc.xyz).max()), 1e-9)
    for k, c in enumerate(sc.cat):
        xu = ref.unwrap(sc.xyz[c], sc.L)
        if not ref.compact(xu, sc.L):
            raise Skip
        ce = ref.center(xu, sc.m[c], how, ref.extent(xu))
        r = np.linalg.norm(xu - ce, axis=1)
        cut = sc.r200[k] * frac
        if np.any(np.abs(r - cut) < 1e-9 * sl):
            raise Skip
        exp_cat.append([i for i, q in zip(c, r) if q < cut])
        # Pieces.
        got = call("respectPBCNoRef", P.respectPBCNoRef, sc.xyz[c].copy(), sc.L)
        dd = got - xu
        if sc.L > 0:
            check(np.abs(dd - dd[0]).max() < 1e-9 * sl, "unwrapped object %d is torn apart by %g" % (k, np.abs(dd - dd[0]).max()))
            check(np.abs(dd / sc.L - np.round(dd / sc.L)).max() < 1e-9, "particles of object %d moved by something else than box lengths" % k)
        else:
            same(got, sc.xyz[c], "positions without periodicity")
        close(call("calcCoM", P.calcCoM, xu, sc.m[c]), ref.com(xu, sc.m[c]), atol=1e-9 * sl, rtol=0, what="centre of mass of object %d" % k)
        close(call("calcMode", P.calcMode, xu, sc.m[c], 1.7 * ref.extent(xu) + 1e-3), ref.mode(xu, sc.m[c], 1.7 * ref.extent(xu) + 1e-3), atol=1e-9 * sl, rtol=0, what="mode of object %d" % k)
        close(call("cosmo_tools.calcMode", cosmo_tools.calcMode, xu, sc.m[c], 1.7 * ref.extent(xu) + 1e-3), ref.mode(xu, sc.m[c], 1.7 * ref.extent(xu) + 1e-3), atol=1e-9 * sl, rtol=0,
              what="mode of object %d (cosmo_tools)" % k)
        if sc.L > 0:
            y = xu - ref.com(xu, sc.m[c]) + ce
            y = np.clip(y, -0.999 * sc.L, 1.999 * sc.L)
            z = call("recentreObject", P.recentreObject, y, sc.L)
            check(np.all(z >= 0) and np.all(z <= sc.L * (1 + 1e-12)), "recentreObject leaves particles outside the box")
            t = (z - y) / sc.L
            check(np.abs(t - np.round(t)).max() < 1e-9, "recentreObject moves particles by something else than box lengths")
    got_cat, got_size = call("getCatWithinFracR200", P.getCatWithinFracR200, cat, sizes, sc.xyz, sc.m, sc.L, how, sc.r200, frac)
    kept = [e for e in exp_cat if e]
    check([int(v) for v in got_size] == [len(e) for e in kept], "particles within %g R200: %s per object, expected %s" % (frac, list(got_size), [len(e) for e in kept]))
    o = 0
    for e in kept:
        g = sorted(int(i) for i in got_cat[o:o + len(e)])
        check(g == sorted(e), "particles within %g R200: %s, expected %s" % (frac, g[:10], sorted(e)[:10]))
        o += len(e)
    sel = [int(i) for i in rng.permutation(len(sc.cat))[: int(rng.integers(1, len(sc.cat) + 1))]]
    g = call("getSubSetIdxCat", P.getSubSetIdxCat, cat, sizes, sel)
    check([int(i) for i in g] == [i for k in sel for i in sc.cat[k]], "getSubSetIdxCat(%s) picks other particles" % sel)
    return max(sc.n) >= 5


def parse_e(s):
    sup = {c: str(i) for i, c in enumerate("\u2070\u00b9\u00b2\u00b3\u2074\u2075\u2076\u2077\u2078\u2079")}
    sup["\u207b"] = "-"
    s = s.replace("\u2800", "")
    man, _, rest = s.partition("\u2715")
    if not _:
        man, rest = ("1", s) if any(c in sup for c in s) else (s, "")
    if not rest:
        return float(man)
    check(rest.startswith("10") and len(rest) > 2 and all(c in sup for c in rest[2:]), "eTo10 gives %r" % s)
    return float(man) * 10.0 ** int("".join(sup[c] for c in rest[2:]))


def run_numbers(spec, ctx):
    from cosmic_profiles.common import python_routines as P
    rng = np.random.default_rng(spec["seed"])
    v = spec["man"] * 10.0 ** spec["exp"]
    for f in ("{:.2e}", "{:.2E}"):
        s = f.format(v)
        if abs(int(s.lower().split("e")[1])) > 19:
            continue
        t = call("eTo10(%r)" % s, P.eTo10, s)
        close(parse_e(t), float(s), rtol=1e-9, what="eTo10(%r) = %r" % (s, t))
    if spec["seed"] % 8 == 0:
        import matplotlib.pyplot as plt
        ax = plt.figure().add_subplot(projection="3d")
        lim = np.sort(rng.normal(size=(3, 2)) * 10.0 ** rng.uniform(-3, 3, size=(3, 1)), axis=1)
        ax.set_xlim3d(lim[0]), ax.set_ylim3d(lim[1]), ax.set_zlim3d(lim[2])
        call("set_axes_equal", P.set_axes_equal, ax)
        new = np.array([ax.get_xlim3d(), ax.get_ylim3d(), ax.get_zlim3d()])
        big = np.ptp(lim, axis=1).max()
        close(new, lim.mean(axis=1)[:, None] + np.array([-0.5, 0.5]) * big, rtol=1e-9, atol=1e-9 * big, what="axes after set_axes_equal")
        plt.close("all")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        call("print_status", P.print_status, 0, time.time() - 7.3, "hello %s" % rng.integers(100), **({} if rng.integers(2) else {"color": str(rng.choice(["red", "green", "blue"]))}))
        here = out.getvalue()
        call("print_status on another rank", P.print_status, 1, time.time(), "never")
        mid = out.getvalue()
        call("print_status on any rank", P.print_status, 1, time.time(), "always", allowed_any=True)
    check("hello" in here and re.search(r"\b(7|8|9|[1-9]\d+)\ts", here) and mid == here and "always" in out.getvalue(), "print_status printed %r" % out.getvalue())
    rho = call("getRhoCrit", P.getRhoCrit)
    close(rho, 2.775e11, rtol=0.01, what="critical density in h^2 M_sun/Mpc^3")
    N, L = int(rng.integers(1, 2000)), float(10.0 ** rng.uniform(-1, 3))
    close(call("getMassDMParticle", P.getMassDMParticle, N, L), rho * L ** 3 / N ** 3, rtol=1e-10, what="DM particle mass")
    z, om = float(rng.uniform(0, 12)), float(rng.uniform(0.05, 1.0))
    ol = float(rng.choice([0.0, 1 - om, rng.uniform(0, 1.2)]))
    oz = om * (1 + z) ** 3 / (om * (1 + z) ** 3 + ol)
    close(call("getDelta", P.getDelta, z, om, ol), (18 * np.pi ** 2 + 82 * (oz - 1) - 39 * (oz - 1) ** 2) / oz - 1, rtol=1e-10, what="virial overdensity")
    n = int(rng.choice([1, 2, 3, int(rng.integers(4, 800))]))
    abc = np.sort(10.0 ** rng.uniform(-3, 3, size=3))[::-1]
    for what, pts, ax in [("fibonacci_sphere", call("fibonacci_sphere(%d)" % n, P.fibonacci_sphere, n), np.ones(3)),
                          ("fibonacci_ellipsoid", call("fibonacci_ellipsoid(%d)" % n, P.fibonacci_ellipsoid, *abc, n), abc)]:
        pts = np.array(pts, dtype=float)
        check(pts.shape == (n, 3), "%s(%d) gives shape %s" % (what, n, pts.shape))
        u = pts / ax
        close(np.sum(u ** 2, axis=1), np.ones(n), rtol=1e-9, what="%s surface equation" % what)
        if n >= 100:
            # Even cover: the mean vanishes, the second moments are a third each, no two points coincide.
            check(np.abs(u.mean(axis=0)).max() < 0.05, "%s: mean of the points %s" % (what, u.mean(axis=0)))
            check(np.abs(np.einsum("ij,ik->jk", u, u) / n - np.eye(3) / 3).max() < 0.05, "%s is not evenly distributed" % what)
    check(len(P.fibonacci_sphere()) == 1 and len(P.fibonacci_ellipsoid(1.0, 2.0, 3.0)) == 1, "one sample is the default")
    # Nested ellipsoidal shells: a point lies in one of them at most.
    k = int(rng.integers(1, 6))
    a = np.cumsum(rng.uniform(0.1, 1.0, size=k))
    b, c = a * rng.uniform(0.3, 1.0), a * rng.uniform(0.1, 0.3)
    for _ in range(6):
        X = rng.normal(size=3) * a[-1] * np.array([1, b[-1] / a[-1], c[-1] / a[-1]]) * rng.choice([0.3, 1.0])
        lev = np.array([(X[0] / a[i]) ** 2 + (X[1] / b[i]) ** 2 + (X[2] / c[i]) ** 2 for i in range(k)])
        if np.any(np.abs(lev - 1) < 1e-9):
            continue
        home = int(np.sum(lev > 1))
        for i in range(k):
            check(bool(call("inShell", P.inShell, X, a, b, c, i)) == (i == home), "point in shell %d of %d: inShell(%d) is %r" % (home, k, i, P.inShell(X, a, b, c, i)))
    with contextlib.redirect_stdout(io.StringIO()) as f:
        P.print_status(0, time.time() - 5, "the message", **({} if spec["color"] is None else {"color": spec["color"]}))
        P.print_status(1, time.time(), "hidden")
        P.print_status(1, time.time(), "shown", allowed_any=True)
    out = f.getvalue()
    check("the message" in out and "hidden" not in out and "shown" in out, "print_status printed %r" % out)
    return True


HOW = st.sampled_from(["median_quantile", "SEM", "bootstrap"])
SUBS = [
    Sub("blocks", st.fixed_dictionaries({"seed": gen.SEED, "n": st.integers(0, 40), "nb": st.integers(1, 9), "ties": st.booleans(), "v": st.booleans()}),
        run_blocks, quick=3000),
    Sub("averages", st.fixed_dictionaries({"seed": gen.SEED, "nb": st.integers(1, 6), "nmax": st.integers(2, 40), "how": HOW, "nreal": st.sampled_from([5, 10, 60])}),
        run_averages, quick=1500),
    Sub("shapes", st.fixed_dictionaries({"seed": gen.SEED, "n": st.integers(1, 9), "R": gen.rads_strategy(1, 8), "jitter": st.booleans(), "hole": st.sampled_from([0.0, 0.3, 0.8]),
                                         "dnan": st.booleans(), "how": st.sampled_from(["median_quantile", "SEM"])}), run_shapes, quick=2000),
    Sub("independence", st.fixed_dictionaries({"seed": gen.SEED, "nmax": st.integers(0, 20), "zero": st.sampled_from([0.0, 0.4, 1.0]), "nb": st.integers(1, 4),
                                               "kind": st.sampled_from(["int", "float"])}), run_independence, quick=1500),
    Sub("geometry", st.fixed_dictionaries({"scene": gen.scene_strategy(nobj=(1, 4), nmax=60), "seed": gen.SEED, "center": st.sampled_from(["com", "mode"]),
                                           "frac": gen.fl(0.05, 1.5)}), run_geometry, quick=2500, weight=1.5),
    Sub("numbers", st.fixed_dictionaries({"seed": gen.SEED, "man": gen.fl(-9.99, 9.99).filter(lambda v: abs(v) >= 1), "exp": st.integers(-19, 19),
                                          "color": st.sampled_from([None, "green", "red", "blue"])}), run_numbers, quick=1500),
]
