"""Mock halos: mass, resolution, shells, isotropy, and what the analysis finds in them."""
import numpy as np
from hypothesis import strategies as st
from scipy import integrate

from props import p10
from vlib import gen, obj, ref
from vlib.core import Skip, Sub, call, check, close, expect_raises

RULE = "a case counts when the halo has at least 50 particles in at least two shells (shells drawn alone: at least 20 particles)"

PROF = p10.PROF


def axes(spec, rng):
    """Nested ellipsoids, axis ratios constant or varying slowly."""
    n = spec["n"]
    a = np.logspace(np.log10(spec["amin"]), 0, n) * spec["size"]
    q, s = max(spec["q"], spec["s"]), min(spec["q"], spec["s"])
    t = np.linspace(0, 1, n)
    if spec["vary"]:
        qq = q + (1 - q) * 0.5 * t
        ss = np.minimum(s + (1 - s) * 0.3 * t, qq)
    else:
        qq, ss = np.full(n, q), np.full(n, s)
    return a, a * qq, a * ss


def pars(spec, rng):
    p = p10.true_pars(spec["profile"], rng, spec["size"])
    del p["rho_s"]
    return p


def mass_in(profile, p, lo, hi):
    f = lambda t: 4 * np.pi * np.exp(3 * t) * ref.models(profile, p, np.exp(t))
    return integrate.quad(f, np.log(lo), np.log(hi), limit=200)[0]


def level(x, y, z, a, b, c):
    return (x / a) ** 2 + (y / b) ** 2 + (z / c) ** 2


def nested(a, b, c):
    return np.all(np.diff(a) > 0) and np.all(np.diff(b) > 0) and np.all(np.diff(c) > 0)


def coarse(a):
    return a[::2] if len(a) % 2 == 1 else np.hstack((a[::2], a[-1]))


def run_halo(spec, ctx):
    from cosmic_profiles import genHalo
    rng = np.random.default_rng(spec["seed"])
    a, b, c = axes(spec, rng)
    if not nested(a, b, c):
        raise Skip
    p = pars(spec, rng)
    tot, res = 10.0 ** spec["logm"], spec["res"]
    keep = [v.copy() for v in (a, b, c)]
    np.random.seed(spec["seed"] % 1000)
    q = dict(p)
    x, y, z, mp, rho_s = call("genHalo(%d shells, resolution %d)" % (len(a), res), genHalo, tot, res, q, spec["profile"], a, b, c)
    check(all(np.array_equal(u, v) for u, v in zip((a, b, c), keep)), "genHalo changed the axes it was given")
    check(all(q[k] == p[k] for k in p), "genHalo changed the model parameters: %s" % q)
    n = len(x)
    check(x.shape == y.shape == z.shape == (n,) and n > 0, "shapes of the coordinates: %s %s %s" % (x.shape, y.shape, z.shape))
    check(np.all(np.isfinite(x)) and np.all(np.isfinite(y)) and np.all(np.isfinite(z)), "coordinates are not finite")
    # Normalisation.
    m1 = mass_in(spec["profile"], dict(p, rho_s=1.0), 1e-8, a[-1])
    close(rho_s, tot / m1, rtol=1e-4, what="rho_s of a halo of mass %g" % tot)
    close(n * mp, tot, rtol=1e-4, what="number of particles times particle mass")
    # Number of particles, as promised shell by shell; shells are merged two by two as long as the first one is empty.
    pr = dict(p, rho_s=rho_s)
    aa, bb, cc = a, b, c
    for _ in range(200):
        e = np.hstack(([1e-8], aa))
        ms = np.array([mass_in(spec["profile"], pr, e[i], e[i + 1]) for i in range(len(aa))])
        t = res * ms[1] / tot
        if abs(t - 0.5) < 1e-3:
            raise Skip
        if round(t) > 0:
            break
        aa, bb, cc = coarse(aa), coarse(bb), coarse(cc)
    else:
        raise Skip
    if abs(t - np.floor(t) - 0.5) < 1e-3:
        raise Skip
    n1 = round(t)
    lev = np.array([level(x, y, z, aa[i], bb[i], cc[i]) for i in range(len(aa))])
    check(np.all(lev[-1] <= 1 + 1e-9), "particles outside the outermost ellipsoid")
    if np.any(np.abs(lev - 1) < 1e-12):
        raise Skip
    shell = (lev > 1).sum(axis=0)
    cnt = np.bincount(shell, minlength=len(aa))
    want = n1 * ms / ms[1]
    bad = np.abs(cnt - want) > 0.5 + 1e-3 * want
    check(not bad.any(), "particles per shell %s, the mass asks for %s" % (cnt[:12], np.round(want[:12], 2)))
    check(abs(n - want.sum()) <= 0.5 * len(aa) + 1e-3 * n, "%d particles" % n)
    # Again: the same halo, whatever the state of the random numbers.
    np.random.seed(spec["seed"] % 1000 + 1)
    np.random.uniform(size=spec["seed"] % 7)
    again = call("genHalo again", genHalo, tot, res, dict(p), spec["profile"], a, b, c)
    for u, v in zip((x, y, z), again[:3]):
        check(np.array_equal(u, v), "two halos of the same parameters differ")
    return n >= 50 and (cnt > 0).sum() >= 2


def ks_uniform(u):
    u = np.sort(u)
    n = len(u)
    i = np.arange(n)
    return max(np.max((i + 1) / n - u), np.max(u - i / n)) * np.sqrt(n)


def run_shell(spec, ctx):
    """One shell: number, place, isotropic in the frame in which the ellipsoids are spheres."""
    from cosmic_profiles.common.python_routines import drawUniformFromShell, inShell
    rng = np.random.default_rng(spec["seed"])
    a, b, c = axes(spec, rng)
    if not nested(a, b, c):
        raise Skip
    k = spec["k"] % len(a)
    N = np.zeros(len(a), dtype=np.int32)
    N[k] = spec["N"]
    X = call("drawUniformFromShell", drawUniformFromShell, 3, a, b, c, N, k)
    check(X.shape == (spec["N"], 3), "%s points for %d" % (X.shape, spec["N"]))
    for x in X[:20]:
        l1 = level(*x, a[k], b[k], c[k])
        l0 = level(*x, a[k - 1], b[k - 1], c[k - 1]) if k else 2.0
        check(l1 <= 1 + 1e-9 and l0 >= 1 - 1e-9, "a point of shell %d is outside of it" % k)
        if abs(l1 - 1) > 1e-9 and abs(l0 - 1) > 1e-9:
            check(inShell(x, a, b, c, k) is True or inShell(x, a, b, c, k) == True, "inShell denies a point of the shell")  # noqa: E712
            for j in range(len(a)):
                if j != k:
                    check(not inShell(x, a, b, c, j), "inShell puts a point of shell %d into shell %d" % (k, j))
    if spec["N"] < 20:
        return False
    if not spec["vary"]:
        # Similar ellipsoids: the level follows from the position.
        lv = np.sqrt(level(X[:, 0], X[:, 1], X[:, 2], 1.0, b[0] / a[0], c[0] / a[0]))
        lo = a[k - 1] if k else 0.0
        d = ks_uniform((lv - lo) / (a[k] - lo))
        check(d < 3.3, "distances within shell %d are not spread evenly (Kolmogorov-Smirnov %.2f)" % (k, d))
        v = X / np.stack([a[:1], b[:1], c[:1]], axis=1)
        v /= np.linalg.norm(v, axis=1)[:, None]
        for i in range(3):
            d = ks_uniform((v[:, i] + 1) / 2)
            check(d < 3.3, "directions in shell %d are not isotropic along axis %d (Kolmogorov-Smirnov %.2f)" % (k, i, d))
        for i, j in ((0, 1), (0, 2), (1, 2)):
            r = np.sqrt(len(v)) * np.mean(v[:, i] * v[:, j]) / np.sqrt(1 / 15)
            check(abs(r) < 6, "directions in shell %d: correlation of axes %d and %d (%.1f sigma)" % (k, i, j, r))
        d = ks_uniform((np.arctan2(v[:, 1], v[:, 0]) + np.pi) / (2 * np.pi))
        check(d < 3.3, "azimuths in shell %d are not uniform (Kolmogorov-Smirnov %.2f)" % (k, d))
    return True


def run_ellipsoid(spec, ctx):
    """Uniform filling of one ellipsoid."""
    from cosmic_profiles.common.python_routines import drawUniformFromEllipsoid
    rng = np.random.default_rng(spec["seed"])
    a, b, c = axes(dict(spec, vary=False), rng)
    k = spec["k"] % len(a)
    N = np.zeros(len(a), dtype=np.int32)
    N[k] = spec["N"]
    X, nb = call("drawUniformFromEllipsoid", drawUniformFromEllipsoid, 3, a, b, c, N, k)
    check(nb == k and X.shape == (spec["N"], 3), "%s points, ellipsoid %s" % (X.shape, nb))
    l2 = level(X[:, 0], X[:, 1], X[:, 2], a[k], b[k], c[k])
    check(np.all(l2 <= 1 + 1e-9), "points outside the ellipsoid")
    if spec["N"] < 20:
        return False
    d = ks_uniform(l2 ** 1.5)
    check(d < 3.3, "the ellipsoid is not filled uniformly (Kolmogorov-Smirnov %.2f)" % d)
    v = X / np.array([a[k], b[k], c[k]])
    v /= np.linalg.norm(v, axis=1)[:, None]
    for i in range(3):
        d = ks_uniform((v[:, i] + 1) / 2)
        check(d < 3.3, "directions in the ellipsoid are not isotropic along axis %d (Kolmogorov-Smirnov %.2f)" % (i, d))
    return True


def run_analysis(spec, ctx):
    """The analysis finds in a mock halo what was put in: axis ratios, orientation, density, mass."""
    from cosmic_profiles import genHalo
    rng = np.random.default_rng(spec["seed"])
    spec = dict(spec, vary=False, n=60, amin=0.01)
    if spec["shape"] == "sphere":
        spec["q"] = spec["s"] = 1.0
    a, b, c = axes(spec, rng)
    p = pars(spec, rng)
    tot = 10.0 ** spec["logm"]
    x, y, z, mp, rho_s = call("genHalo", genHalo, tot, 12000, dict(p), spec["profile"], a, b, c)
    X = np.stack((x, y, z), axis=1)
    if len(X) < 3000:
        raise Skip
    rot = gen.rotation(rng)
    X = X @ rot.T + 5.0 * spec["size"]
    sc = gen.Scene()
    sc.xyz, sc.m, sc.cat, sc.r200, sc.L = X, np.full(len(X), mp), [list(range(len(X)))], np.array([spec["size"]]), 0.0
    o = obj.direct(sc, ctx)
    mc = call("getMassesCenters", o.getMassesCenters, [0])
    close(mc["mass"][0], tot, rtol=1e-3, what="mass of the mock halo")
    check(np.linalg.norm(mc["centre"][0] - 5.0 * spec["size"]) < 6 * spec["size"] / np.sqrt(len(X)), "centre of the mock halo")
    if spec["shape"] == "sphere":
        R = np.array([0.1, 0.2, 0.35, 0.6, 0.95])
        rho = call("estDensProfs", o.estDensProfs, R, [0])[0]
        e = ref.sph_edges(R) * spec["size"]
        for i in range(1, len(R)):
            mm = mass_in(spec["profile"], dict(p, rho_s=rho_s), e[i], e[i + 1])
            v = 4 / 3 * np.pi * (e[i + 1] ** 3 - e[i] ** 3)
            n = mm / mp
            tol = 0.03 + 6 / np.sqrt(n) + 0.05
            check(abs(rho[i] * v / mm - 1) < tol, "density of the mock halo between %.3g and %.3g: %.4g, expected %.4g" % (e[i], e[i + 1], rho[i], mm / v))
        return True
    q, s = max(spec["q"], spec["s"]), min(spec["q"], spec["s"])
    R = np.array([0.5, 0.9])
    sh = call("getShapeCatLocal", o.getShapeCatLocal, [0], obj.katz_config(R, tol=1e-2))
    l = np.linalg.norm((X - 5.0 * spec["size"]) @ rot / np.array([1.0, q, s]), axis=1)
    for i in range(2):
        n = (l < R[i] * spec["size"]).sum()
        if n < 1500 or not np.isfinite(sh["q"][0, i]):
            continue
        tol = 0.02 + 8 / np.sqrt(n)
        check(abs(sh["q"][0, i] - q) < tol and abs(sh["s"][0, i] - s) < tol, "shape of the mock halo with axes 1 : %.3g : %.3g within %.2g R200: 1 : %.3g : %.3g (%d particles)" % (
            q, s, R[i], sh["q"][0, i], sh["s"][0, i], n))
        if q - s > 0.25:
            cs = abs(sh["minor"][0, i] @ rot[:, 2])
            check(cs > 0.95, "minor axis of the mock halo (1 : %.3g : %.3g): cosine %.3f" % (q, s, cs))
        if 1 - q > 0.25:
            cs = abs(sh["major"][0, i] @ rot[:, 0])
            check(cs > 0.95, "major axis of the mock halo (1 : %.3g : %.3g): cosine %.3f" % (q, s, cs))
    return True


def run_errors(spec, ctx):
    from cosmic_profiles import genHalo
    a = np.logspace(-2, 0, 6)
    expect_raises("a resolution of nothing", ValueError, genHalo, 1e12, 0, {"r_s": 0.2}, "nfw", a, a, a)
    return True


AX = {"seed": gen.SEED, "n": st.integers(2, 30), "amin": gen.fl(0.005, 0.3), "size": st.sampled_from([0.01, 0.5, 1.0, 2.0]), "q": gen.fl(0.3, 1.0), "s": gen.fl(0.3, 1.0),
      "vary": st.booleans(), "profile": PROF, "logm": gen.fl(-1.0, 15.0)}
SUBS = [
    Sub("halo", st.fixed_dictionaries(dict(AX, res=st.sampled_from([3, 20, 100, 300, 1000, 3000]))), run_halo, quick=300, weight=1.5),
    Sub("shell", st.fixed_dictionaries(dict(AX, k=st.integers(0, 40), N=st.sampled_from([0, 1, 5, 100, 400, 1000]))), run_shell, quick=1200),
    Sub("ellipsoid", st.fixed_dictionaries(dict(AX, k=st.integers(0, 40), N=st.sampled_from([0, 1, 5, 100, 400, 1000]))), run_ellipsoid, quick=500, weight=0.7),
    Sub("analysis", st.fixed_dictionaries(dict(AX, shape=st.sampled_from(["sphere", "ellipsoid", "ellipsoid"]))), run_analysis, quick=60, weight=1.3),
    Sub("errors", st.fixed_dictionaries({"seed": st.just(0)}), run_errors, quick=8, thorough=8, weight=0.2),
]
