"""Plots: what is drawn, and where it is saved."""
import os
import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import gen, obj, ref
from vlib.core import Skip, Sub, Violation, call, check, close
from .p05 import pick

RULE = ("a case counts when a figure with at least one drawn value was compared: eps, triaxiality: at least one object inside the histogram; profiles, density: at "
        "least two objects or two mass bins; viz: at least one converged shape")


class Figures:
    """Record what every saved figure shows; write a stand-in file unless real is set."""

    def __init__(self, real):
        self.real = real
        self.figs = {}

    def __enter__(self):
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.figure as mf
        import matplotlib.pyplot as plt
        plt.close("all")
        self.mf, self.orig = mf, mf.Figure.savefig
        me = self

        def savefig(fig, fname, *a, **k):
            p = os.path.realpath(str(fname))
            me.figs[p] = me.content(fig)
            if me.real:
                return me.orig(fig, fname, *a, **k)
            with open(fname, "wb") as f:
                f.write(b"figure")

        mf.Figure.savefig = savefig
        return self

    def __exit__(self, *a):
        import matplotlib.pyplot as plt
        self.mf.Figure.savefig = self.orig
        plt.close("all")

    @staticmethod
    def content(fig):
        from matplotlib.patches import Rectangle
        c = {"lines": [], "bars": [], "points": [], "arrows": []}
        for ax in fig.axes:
            for l in ax.lines:
                c["lines"].append((np.array(l.get_xdata(orig=True), dtype=float), np.array(l.get_ydata(orig=True), dtype=float)))
            for p in ax.patches:
                if isinstance(p, Rectangle):
                    c["bars"].append((p.get_x(), p.get_x() + p.get_width(), p.get_height()))
            for s in ax.collections:
                if hasattr(s, "_offsets3d"):
                    c["points"].append(np.array([np.asarray(np.ma.filled(v, np.nan), dtype=float) for v in s._offsets3d]).T)
                elif hasattr(s, "_segments3d") and len(s._segments3d):
                    c["arrows"].append(np.asarray(s._segments3d[0], dtype=float))
        return c


def plots(spec, ctx, sc, fac):
    """Object with a destination of the kind asked for -> object, absolute destination."""
    fl, fm = fac
    snap = spec["snap"]
    kind = spec["dest"]
    if kind == "there":
        viz = ctx.dir("viz")
    elif kind == "nested":
        viz = os.path.join(ctx.tmp, "a", "b", "viz")
    elif kind == "relative":
        viz = os.path.join(".", "rel", "viz")
    else:
        viz = os.path.join(ctx.tmp, "a dir", "viz")
    o = obj.direct(sc, ctx, spec["center"], xyz=sc.xyz * fl, m=sc.m * fm, r200=sc.r200 * fl, L=sc.L * fl, snap=snap, viz=viz)
    return o, os.path.realpath(os.path.join(ctx.tmp, viz))


def in_units(spec):
    h = spec["h"]
    lin, min_, lout, mout = obj.units(spec["inl"], spec["inm"], spec["outl"], spec["outm"], h)
    il, im = gen.length_cm("Mpc/h", h), gen.mass_g("E+10Msun/h", h)
    return (il / lin, im / min_), il / lout, im / mout


def figure(F, dest, name, n=None):
    p = os.path.join(dest, name)
    check(os.path.isfile(p), "no file %s (saved: %s; in the directory: %s)" % (p, sorted(F.figs), sorted(os.listdir(dest)) if os.path.isdir(dest) else "missing"))
    check(p in F.figs, "%s was not saved by this call" % p)
    check(os.path.getsize(p) > 0, "%s is empty" % p)
    return F.figs[p]


def bars(fig, values, nb, what):
    edges = np.linspace(0, 1, nb)
    v = np.asarray(values, dtype=float)
    if np.any(np.abs(v[:, None] - edges[None, :]) < 1e-7):
        raise Skip("value at a bin edge")
    got = sorted(fig["bars"])
    check(len(got) == nb - 1, "%s: %d bars, expected %d" % (what, len(got), nb - 1))
    close([g[0] for g in got], edges[:-1], atol=1e-9, rtol=0, what=what + ": left bin edges")
    close([g[1] for g in got], edges[1:], atol=1e-9, rtol=0, what=what + ": right bin edges")
    n = np.array([np.sum((v > a) & (v < b)) for a, b in zip(edges[:-1], edges[1:])], dtype=float)
    if n.sum() == 0:
        return False
    close([g[2] for g in got], n / n.sum() * (nb - 1), rtol=1e-6, atol=1e-9, what=what + ": heights")
    return True


def run_eps(spec, ctx):
    """Projected ellipticities against second moments."""
    sc = gen.make_scene(spec["scene"])
    fac, lo, _ = in_units(spec)
    sel = pick(spec["sel"], len(sc.cat))
    frac, nb = spec["frac"], spec["nb"]
    sl = max(float(np.abs(sc.xyz).max()), 1e-9)

    def eps(x, m):
        c = ref.center(x, m, spec["center"], ref.extent(x))
        y = x - c
        t = np.einsum("i,ij,ik->jk", m, y, y)
        if t[0, 0] + t[1, 1] < 1e-12 * sl ** 2 * m.sum():
            raise Skip
        return ((t[0, 0] - t[1, 1]) + 2j * t[0, 1]) / (t[0, 0] + t[1, 1])

    glob, loc = [], []
    for k in sel:
        x, m = ref.unwrap(sc.xyz[sc.cat[k]], sc.L), sc.m[sc.cat[k]]
        if not ref.compact(x, sc.L):
            raise Skip
        glob.append(eps(x, m))
        r = np.linalg.norm(x - ref.center(x, m, spec["center"], ref.extent(x)), axis=1)
        if np.any(np.abs(r - frac * sc.r200[k]) < 1e-9 * sl):
            raise Skip
        inside = r < frac * sc.r200[k]
        if inside.sum() == 0:
            continue
        # One particle has no ellipticity.
        if inside.sum() == 1:
            continue
        loc.append(eps(x[inside], m[inside]))
    o, dest = plots(spec, ctx, sc, fac)
    arg = sel if spec["aslist"] else np.array(sel)
    with Figures(spec["real"] == 17) as F:
        if spec["which"] == "global":
            call("plotGlobalEpsHist", o.plotGlobalEpsHist, nb, arg)
            v = glob
        else:
            call("plotLocalEpsHist", o.plotLocalEpsHist, frac, nb, arg)
            v = loc
        ok = bars(figure(F, dest, "EpsCount_%s.pdf" % spec["snap"]), np.abs(v), nb, spec["which"] + " ellipticity histogram")
    # The complex ellipticity itself, also of rotated objects.
    from cosmic_profiles.shape_profs import shape_profs_tools as T
    cat = np.array([i for k in sel for i in sc.cat[k]], dtype=np.int32)
    size = np.array([sc.n[k] for k in sel], dtype=np.int32)
    for th in (0.0, spec["angle"]):
        e = call("getEpsilon", T.getEpsilon, cat, size, sc.xyz, sc.m, sc.L, spec["center"], *([th] if th else []))
        x = np.array(glob) * np.exp(2j * th)
        check(len(e) == len(x), "%d ellipticities of %d objects" % (len(e), len(x)))
        check(np.abs(np.array(e) - x).max() < 1e-7, "complex ellipticity (rotated by %g): %s, expected %s" % (th, e, x))
    return ok


def triax(q, s):
    with np.errstate(all="ignore"):
        return (1 - np.asarray(q, float) ** 2) / (1 - np.asarray(s, float) ** 2)


def kc(spec):
    return obj.katz_config(gen.make_rads(spec["R"]), 10.0 ** -spec["tol"], 100, spec["imin"], spec["reduced"], spec["shell"])


def run_triax(spec, ctx):
    """Triaxiality histograms against the shapes getShapeCat* reports."""
    sc = gen.make_scene(spec["scene"])
    fac, lo, _ = in_units(spec)
    o, dest = plots(spec, ctx, sc, fac)
    sel = pick(spec["sel"], len(sc.cat))
    arg = sel if spec["aslist"] else np.array(sel)
    cfg, nb, frac = kc(spec), spec["nb"], spec["frac"]
    R = np.array(cfg["ROverR200"])
    if spec["which"] == "global":
        c = call("getShapeCatGlobal", o.getShapeCatGlobal, sel, cfg)
        t = triax(c["q"], c["s"]).reshape(len(sel), -1)[:, -1]
    else:
        c = call("getShapeCatLocal", o.getShapeCatLocal, sel, cfg)
        q, s, d = (np.asarray(c[f], float).reshape(len(sel), len(R)) for f in ("q", "s", "d"))
        t = np.full(len(sel), np.nan)
        for j, k in enumerate(sel):
            u = np.abs(d[j] / (sc.r200[k] * lo) - frac)
            if np.all(np.isnan(u)):
                continue
            w = np.sort(u[~np.isnan(u)])
            if len(w) > 1 and w[1] - w[0] < 1e-5:
                raise Skip("two radii equally near")
            i = int(np.nanargmin(u))
            t[j] = triax(q[j, i], s[j, i])
    t = t[~np.isnan(t) & (t != 0)]
    with Figures(spec["real"] == 17) as F, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if spec["which"] == "global":
            call("plotGlobalTHist", o.plotGlobalTHist, nb, arg, cfg)
            f = figure(F, dest, "GlobalTCount_%s.pdf" % spec["snap"])
        else:
            call("plotLocalTHist", o.plotLocalTHist, nb, frac, arg, cfg)
            f = figure(F, dest, "LocalTCount_%s.pdf" % spec["snap"])
        return len(t) > 0 and bars(f, t, nb, spec["which"] + " triaxiality histogram")


def mass_groups(mass, nb):
    """-> lists of object positions in ascending order of mass; None if masses tie."""
    o = np.argsort(mass, kind="mergesort")
    w = mass[o]
    if np.any(np.diff(w) < 1e-4 * w[1:]):
        raise Skip("equal masses")
    size = -(-len(mass) // nb)
    return [o[i:i + size] for i in range(0, len(o), size)]


def tag(m):
    """The mass in the name of a file, and whether it hinges on rounding."""
    l = np.log10(m)
    if abs((l * 100) % 1 - 0.5) < 1e-3:
        raise Skip("file name hinges on rounding")
    return "%.2f" % l


def median_line(fig, x, y, what, rtol=1e-6):
    for lx, ly in fig["lines"]:
        if lx.shape == x.shape and np.allclose(lx, x, rtol=1e-9):
            close(ly, y, rtol=rtol, atol=1e-12, what=what)
            return True
    raise Violation("%s: no line over the given radii (lines over %s)" % (what, [l[0][:3] for l in fig["lines"]]))


def med(a):
    a = np.asarray(a, float)
    return np.array([np.median(c[~np.isnan(c)]) if np.any(~np.isnan(c)) else np.nan for c in a.T])


def run_profiles(spec, ctx):
    """Shape profiles: median over the objects per radius, overall and per mass bin."""
    sc = gen.make_scene(spec["scene"])
    fac, lo, mo = in_units(spec)
    o, dest = plots(spec, ctx, sc, fac)
    sel = pick(spec["sel"], len(sc.cat))
    arg = sel if spec["aslist"] else np.array(sel)
    cfg = kc(spec)
    R = np.array(cfg["ROverR200"])
    if len(R) > 1 and np.min(np.diff(R)) < 1e-3:
        raise Skip
    c = call("getShapeCatLocal", o.getShapeCatLocal, sel, cfg)
    q, s = (np.asarray(c[f], float).reshape(len(sel), len(R)) for f in ("q", "s"))
    t = triax(q, s)
    mass = np.array([sc.m[sc.cat[k]].sum() for k in sel]) * 1e10
    groups = mass_groups(mass, spec["bins"])
    names = {}
    for g in groups:
        names.setdefault(tag(mass[g].min()), []).append(g)
    with Figures(spec["real"] == 17) as F, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        call("plotShapeProfs", o.plotShapeProfs, spec["bins"], arg, cfg)
        for what, v in (("q", q), ("s", s), ("T", t)):
            median_line(figure(F, dest, "%s_%s.pdf" % (what, spec["snap"])), R, med(v), "median %s of all objects" % what, 1e-5)
            for n, gs in names.items():
                f = figure(F, dest, "%sM%s_%s.pdf" % (what, n, spec["snap"]))
                if len(gs) == 1:
                    median_line(f, R, med(v[gs[0]]), "median %s of mass bin %s" % (what, n), 1e-5)
        extra = [p for p in F.figs if os.path.dirname(p) != dest]
        check(not extra, "figures saved elsewhere: %s" % extra)
        check(len(F.figs) == 3 + 3 * len(names), "figures saved: %s" % sorted(F.figs))
    return not np.all(np.isnan(q)) and len(sel) > 1


def run_density(spec, ctx):
    """Density profiles: medians and fits, overall and per mass bin, in Out units."""
    from .p10 import FIELDS
    sc = gen.make_scene(spec["scene"])
    fac, lo, mo = in_units(spec)
    o, dest = plots(spec, ctx, sc, fac)
    sel = pick(spec["sel"], len(sc.cat))
    arg = sel if spec["aslist"] else np.array(sel)
    rng = np.random.default_rng(spec["sel"])
    R, Rf = np.logspace(-2, 0, int(rng.integers(3, 20))), np.logspace(rng.uniform(-1.6, -1.2), rng.uniform(-0.2, 0), int(rng.integers(12, 25)))
    prof = spec["profile"]
    p = {"r_s": 1 / 10.0 ** rng.uniform(0.5, 1.1), "rho_s": 1.0}
    m = {"profile": prof}
    if "alpha" in FIELDS[prof]:
        p["alpha"] = m["alpha"] = 0.2 if prof == "einasto" else 1.2
    if prof == "alpha_beta_gamma":
        p["beta"] = m["beta"] = 3.1
        p["gamma"] = m["gamma"] = 0.9
    if spec["min_method"]:
        m["min_method"] = spec["min_method"]
    amp = 10.0 ** rng.uniform(1, 3, size=len(sel)) * mo / lo ** 3
    dens = amp[:, None] * ref.models(prof, p, R)[None, :] * np.exp(rng.normal(size=(len(sel), len(R))) * 0.2)
    densf = amp[:, None] * ref.models(prof, p, Rf)[None, :]
    mass = np.array([sc.m[sc.cat[k]].sum() for k in sel]) * 1e10
    groups = mass_groups(mass, spec["bins"])
    names = {}
    for g in groups:
        names.setdefault(tag(mass[g].min()), []).append(g)
    with Figures(spec["real"] == 17) as F, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        call("plotDensProfs", o.plotDensProfs, dens.copy(), R.copy(), densf.copy(), Rf.copy(), m, spec["bins"], arg)
        f = figure(F, dest, "RhoProf_%s.pdf" % spec["snap"])
        median_line(f, R, np.median(dens, axis=0), "median density of all objects", 1e-5)
        # The fit of an exact profile passes through it (the minimiser stops within a per cent or so).
        # (Powell's poor minima are reported by the check of the fits themselves.)
        fits = spec["min_method"] != ""
        if fits:
            median_line(f, Rf, np.median(densf, axis=0), "fit to the median density of all objects", 0.05)
        for n, gs in names.items():
            f = figure(F, dest, "RhoProfM%s_%s.pdf" % (n, spec["snap"]))
            if len(gs) == 1:
                median_line(f, R, np.median(dens[gs[0]], axis=0), "median density of mass bin %s" % n, 1e-5)
                if fits:
                    median_line(f, Rf, np.median(densf[gs[0]], axis=0), "fit to the median density of mass bin %s" % n, 0.05)
        check(len(F.figs) == 1 + len(names), "figures saved: %s" % sorted(F.figs))
    return len(sel) > 1


def run_viz(spec, ctx):
    """The picture of an object: its particles in one piece around the centre, and the ellipsoid of its shape."""
    sc = gen.make_scene(spec["scene"])
    fac, lo, mo = in_units(spec)
    o, dest = plots(spec, ctx, sc, fac)
    sel = pick(spec["sel"], len(sc.cat))[:2]
    arg = sel if spec["aslist"] else np.array(sel)
    cfg = kc(spec)
    sl = max(float(np.abs(sc.xyz).max()), sc.L, 1e-9) * lo
    ref_x = {}
    for k in sel:
        x = ref.unwrap(sc.xyz[sc.cat[k]], sc.L)
        if not ref.compact(x, sc.L) or len(x) in (1, 500):
            raise Skip
        ref_x[k] = (x - ref.center(x, sc.m[sc.cat[k]], spec["center"], ref.extent(x))) * lo
    glob = spec["which"] == "global"
    c = call("getShapeCat", o.getShapeCatGlobal if glob else o.getShapeCatLocal, sel, cfg)
    nr = 1 if glob else len(cfg["ROverR200"])
    da, qa, sa = (np.asarray(c[f], float).reshape(len(sel), nr) for f in ("d", "q", "s"))
    axa = [np.asarray(c[f], float).reshape(len(sel), nr, 3) for f in ("major", "inter", "minor")]
    d, s = da[:, -1], sa[:, -1]
    done = False
    with Figures(spec["real"] == 17) as F, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        call("vizGlobalShapes" if glob else "vizLocalShapes", o.vizGlobalShapes if glob else o.vizLocalShapes, arg, cfg)
        for j, k in enumerate(sel):
            f = figure(F, dest, "%sObj%d_%s.pdf" % ("Global" if glob else "Local", k, spec["snap"]))
            n = sc.n[k]
            part = [p for p in f["points"] if len(p) == n]
            mid = [p for p in f["points"] if len(p) == 1]
            ell = [p for p in f["points"] if len(p) == 500]
            check(len(part) >= 1 and len(mid) >= 1 and (len(ell) >= 1 or np.isnan(d[j])), "picture of object %d: sets of %s points" % (k, [len(p) for p in f["points"]]))
            rel = part[0] - mid[0]
            if np.abs(rel - ref_x[k]).max() > 1e-5 * sl:
                i = int(np.argmax(np.abs(rel - ref_x[k]).max(axis=1)))
                raise Violation("picture of object %d: particle %d drawn at %s from the centre, expected %s (box %g)" % (k, i, rel[i], ref_x[k][i], sc.L * lo))
            if np.isnan(d[j]):
                continue

            def level(u, i):
                with np.errstate(all="ignore"):
                    return sum((u @ (a[j, i] / np.linalg.norm(a[j, i])) / (da[j, i] * w)) ** 2 for a, w in zip(axa, (1.0, qa[j, i], sa[j, i])))
            u = ell[0] - mid[0]
            if np.abs(u).max() > 1e-4 * sl and s[j] * d[j] > 3e-3 * sl:
                close(level(u, nr - 1), np.ones(500), rtol=2e-3, what="ellipsoid drawn for object %d" % k)
                done = True
            # Further ellipsoids and arrows are those of one of the radii.
            thick = [i for i in range(nr) if sa[j, i] * da[j, i] > 3e-3 * sl]
            for e in ell[1:]:
                u = e - mid[0]
                if len(thick) < nr or not np.isfinite(u).all():
                    continue
                off = [float(np.abs(level(u, i) - 1).max()) for i in thick]
                check(min(off) < 2e-3, "picture of object %d: an ellipsoid of half-widths %s is that of none of the %d radii (closest: off by %.3g)" % (
                    k, np.abs(u).max(axis=0), nr, min(off)))
            ends = [np.asarray(a[j, i]) * da[j, i] * w for i in range(nr) for a, w in zip(axa, (1.0, qa[j, i], sa[j, i])) if np.isfinite(da[j, i])]
            for e in f["arrows"]:
                e = e - mid[0][0]
                if not np.isfinite(e).all():
                    continue
                root, u = sorted(e, key=np.linalg.norm)
                check(np.abs(root).max() < 1e-5 * sl, "picture of object %d: an arrow from %s to %s from the centre" % (k, root, u))
                off = min(float(np.abs(u - v).max()) for v in ends)
                check(off < 1e-4 * sl, "picture of object %d: the arrow %s is no principal axis of any of the radii (closest: off by %.3g)" % (k, u, off))
        check(len(F.figs) == len(sel), "figures saved: %s" % sorted(F.figs))
    return done


COMMON = {"sel": gen.SEED, "aslist": st.booleans(), "center": st.sampled_from(["com", "mode"]), "h": st.sampled_from([0.6774, 1.0]),
          "inl": st.sampled_from(["Mpc/h", "kpc/h", "Mpc"]), "inm": st.sampled_from(gen.MASSES), "outl": st.sampled_from(["Mpc/h", "kpc", "kpc/h", "Gpc"]),
          "outm": st.sampled_from(gen.MASSES), "snap": st.sampled_from(["024", "x", "099"]), "dest": st.sampled_from(["there", "nested", "relative", "space"]),
          "real": st.integers(0, 30)}
KATZ = {"R": gen.rads_strategy(2, 8), "tol": st.integers(1, 3), "imin": st.integers(3, 10), "reduced": st.booleans(), "shell": st.booleans()}


def mk(n, nmin, nmax, L=None, **k):
    d = dict(COMMON)
    d["scene"] = gen.scene_strategy(nobj=n, nmin=nmin, nmax=nmax, qmin=0.3, L=L)
    d.update(k)
    return st.fixed_dictionaries(d)


SUBS = [
    Sub("eps", mk((1, 8), 3, 60, which=st.sampled_from(["global", "local"]), nb=st.integers(2, 15), frac=gen.fl(0.2, 1.5), angle=gen.fl(-3, 3)), run_eps, quick=700),
    Sub("triaxiality", mk((1, 8), 10, 120, which=st.sampled_from(["global", "local"]), nb=st.integers(2, 15), frac=gen.fl(0.05, 1.3), **KATZ), run_triax, quick=700),
    Sub("profiles", mk((1, 9), 10, 100, bins=st.integers(1, 4), **KATZ), run_profiles, quick=160, weight=2.5),
    Sub("density", mk((1, 9), 3, 20, bins=st.integers(1, 4), profile=st.sampled_from(["nfw", "hernquist", "einasto", "alpha_beta_gamma"]),
                      min_method=st.sampled_from(["", "L-BFGS-B"]), L=st.sampled_from([0.0, 10.0])), run_density, quick=150, weight=1.5),
    Sub("viz", mk((1, 3), 20, 120, which=st.sampled_from(["global", "local"]), **KATZ), run_viz, quick=250, weight=1.5),
]
