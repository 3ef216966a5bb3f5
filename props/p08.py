"""Ellipsoidal-shell density profiles."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, obj, ref
from vlib.core import Skip, Sub, Violation, call, check, expect_raises

RULE = ("a case counts when at least one object has a fully converged shape profile and at least two non-empty ellipsoidal shells "
        "(reference), or when the sphere-like object has two filled shells (round), or when the radii are too few (too-few)")


def offsets(sc, k, center, rad=1000.0):
    xu = ref.unwrap(sc.xyz[sc.cat[k]], sc.L)
    if not ref.compact(xu, sc.L):
        raise Skip("wide")
    m = sc.m[sc.cat[k]]
    return ref.rel(xu, ref.center(xu, m, center, rad), sc.L), m


def run_ref(spec, ctx):
    sc = gen.make_scene(spec["scene"])
    R = gen.make_rads(spec["rads"])
    RS = gen.make_rads(spec["srads"])
    if np.any(np.diff(R) <= 1e-6) or np.any(np.diff(RS) <= 1e-3):
        raise Skip
    lin, min_, lout, mout = obj.units("Mpc/h", "E+10Msun/h", spec["outl"], spec["outm"])
    unit = (mout / gen.mass_g("E+10Msun/h", 0.6774)) * (gen.length_cm("Mpc/h", 0.6774) / lout) ** 3
    o = obj.direct(sc, ctx, spec["center"])
    sel = list(range(len(sc.cat)))
    if spec["rev"]:
        sel = sel[::-1]
    cfg = obj.katz_config(RS, imin=spec["imin"], reduced=spec["reduced"], shell=spec["shell"], tol=spec["tol"])
    # Shapes as the package reports them (their correctness is another property): unconverged ones end the comparison.
    sh = call("getShapeCatLocal", o.getShapeCatLocal, sel, cfg)
    conv = np.all(sh["is_conv"], axis=1)
    R0, K0 = R.copy(), RS.copy()
    rows = call("estDensProfs", o.estDensProfs, R, sel, direct_binning=True, spherical=False, katz_config=cfg)
    check(rows.shape == (len(sel), len(R)), "estDensProfs returned shape %s" % (rows.shape,))
    check(np.array_equal(R, R0) and np.array_equal(RS, K0), "estDensProfs changed the radii it was given")
    nontriv = False
    done = 0
    for j, k in enumerate(sel):
        if not conv[j]:
            continue
        try:
            d, m = offsets(sc, k, spec["center"])
            lf = lout / gen.length_cm("Mpc/h", 0.6774)
            lo, hi, empty, full = ref.ell_profile(d, m, sc.r200[k], R, sh["d"][j] * lf, sh["q"][j], sh["s"][j], sh["major"][j],
                                                  sh["inter"][j], sh["minor"][j])
        except Skip:
            continue
        done += 1
        got = rows[j] * unit
        scale = np.nanmax(np.abs(np.where(np.isfinite(hi), hi, np.nan))) if np.any(np.isfinite(hi)) else 0
        for i in range(len(R)):
            if not (np.isfinite(lo[i]) and np.isfinite(hi[i])):
                continue
            if empty[i]:
                check(np.isnan(got[i]), "empty ellipsoidal shell %d of object %d: %r instead of NaN" % (i, k, got[i]))
            elif full[i]:
                t = 2e-5 * max(abs(lo[i]), abs(hi[i]))
                if not (lo[i] - t <= got[i] <= hi[i] + t):
                    raise Violation("object %d, radius %g R200: density between the ellipsoids is %.8g, its particles give %.8g..%.8g"
                                    % (k, R[i], got[i], lo[i], hi[i]))
        nontriv |= full.sum() >= 2
    if not done:
        raise Skip
    return nontriv


def run_round(spec, ctx):
    """Rotating the object rotates its ellipsoids: the ellipsoidal profile stays."""
    sc = gen.make_scene(spec["scene"])
    R = gen.make_rads(spec["rads"])
    RS = gen.make_rads(spec["srads"])
    if np.any(np.diff(R) <= 1e-6) or np.any(np.diff(RS) <= 1e-3):
        raise Skip
    c0 = sc.center0[0]
    rot = gen.rotation(np.random.default_rng(spec["k"]))
    x2 = (sc.xyz - c0) @ rot.T + c0
    cfg = obj.katz_config(RS, imin=10)
    out = []
    conv = None
    for x in (sc.xyz, x2):
        o = obj.direct(sc, ctx, "com", xyz=np.ascontiguousarray(x))
        sh = call("getShapeCatLocal", o.getShapeCatLocal, [0], cfg)
        conv = bool(np.all(sh["is_conv"]))
        if not conv:
            raise Skip
        out.append(call("estDensProfs", o.estDensProfs, R, [0], direct_binning=True, spherical=False, katz_config=cfg)[0])
        d, m = offsets(sc, 0, "com")
        rs = ref.local_shapes((x[sc.cat[0]] - ref.com(x[sc.cat[0]], m)), m, sc.r200[0], RS, 1e-2, 100, 10, False, False)
        if any(isinstance(r, Skip) or not r.conv or min(r.gaps) < 1e-3 for r in rs):
            raise Skip
        for a in (sh["major"][0], sh["inter"][0], sh["minor"][0]):
            # The sign of an axis is arbitrary; the interpolation between radii depends on it.
            if np.any(np.abs(np.sum(a[1:] * a[:-1], axis=1)) < 0.2) or np.any(np.sum(a[1:] * a[:-1], axis=1) < 0):
                raise Skip
        lo, hi, e, f = ref.ell_profile(x[sc.cat[0]] - ref.com(x[sc.cat[0]], m), m, sc.r200[0], R, sh["d"][0], sh["q"][0], sh["s"][0],
                                       sh["major"][0], sh["inter"][0], sh["minor"][0])
        amb = ~np.isclose(lo, hi, rtol=1e-9) | ~(e | f)
    ok = ~amb & np.isfinite(out[0])
    if np.any(np.abs(out[1][ok] / out[0][ok] - 1) > 1e-3):
        i = int(np.argmax(np.where(ok, np.abs(out[1] / out[0] - 1), 0)))
        raise Violation("rotating the object changes its ellipsoidal density at %g R200 from %.8g to %.8g" % (R[i], out[0][i], out[1][i]))
    return ok.sum() >= 2


def run_few(spec, ctx):
    sc = gen.make_scene(spec["scene"])
    o = obj.direct(sc, ctx, "com")
    R = np.linspace(0.1, 1, spec["n"]) if spec["n"] > 1 else np.array([0.5])
    expect_raises("estDensProfs(spherical=False) with %d radii" % spec["n"], ValueError, o.estDensProfs, R, [0], direct_binning=True,
                  spherical=False, katz_config=obj.katz_config([0.3, 0.6, 1.0], imin=4))
    return True


CENTER = st.sampled_from(["com", "mode"])
PROFS = ("gauss", "plaw", "uniform")
SUBS = [
    Sub("reference", st.fixed_dictionaries({
        "scene": gen.scene_strategy(nobj=(1, 3), nmin=60, nmax=250, profs=PROFS), "rads": gen.rads_strategy(3, 8), "srads": gen.rads_strategy(2, 5).map(
            lambda r: dict(r, lo=max(r["lo"], 0.2))), "center": CENTER, "imin": st.sampled_from([4, 10]), "reduced": st.booleans(), "shell": st.sampled_from([False, False, True]),
        "tol": st.sampled_from([1e-2, 1e-1]), "rev": st.booleans(), "outl": st.sampled_from(gen.LENGTHS), "outm": st.sampled_from(gen.MASSES)}),
        run_ref, quick=2500, weight=3),
    Sub("rotation", st.fixed_dictionaries({
        "scene": gen.scene_strategy(nobj=(1, 1), nmin=80, nmax=250, periodic=(False,), straddle=False, profs=PROFS),
        "rads": gen.rads_strategy(3, 6), "srads": gen.rads_strategy(2, 3).map(lambda r: dict(r, lo=max(r["lo"], 0.25), kind="lin")),
        "k": gen.SEED}), run_round, quick=1000),
    Sub("too-few-radii", st.fixed_dictionaries({"scene": gen.scene_strategy(nobj=(1, 1), nmin=40), "n": st.sampled_from([1, 2])}), run_few, quick=60,
        weight=0.2),
]
