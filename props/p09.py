"""Kernel-based density profiles."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, obj, ref
from vlib.core import Skip, Sub, Violation, call, check, close

RULE = "a case counts when at least one object has a density above zero at two or more radii in the reference"


def run_ref(spec, ctx):
    sc = gen.make_scene(spec["scene"])
    R = gen.make_rads(spec["rads"])
    lin, min_, lout, mout = obj.units("Mpc/h", "E+10Msun/h", spec["outl"], spec["outm"])
    unit = (mout / gen.mass_g("E+10Msun/h", 0.6774)) * (gen.length_cm("Mpc/h", 0.6774) / lout) ** 3
    o = obj.direct(sc, ctx, spec["center"])
    sel = list(range(len(sc.cat)))
    if spec["rev"]:
        sel = sel[::-1]
    rows = call("estDensProfs", o.estDensProfs, R, sel, direct_binning=False)
    check(rows.shape == (len(sel), len(R)), "estDensProfs returned shape %s" % (rows.shape,))
    nontriv = done = False
    for j, k in enumerate(sel):
        try:
            xu = ref.unwrap(sc.xyz[sc.cat[k]], sc.L)
            if not ref.compact(xu, sc.L):
                raise Skip
            m = sc.m[sc.cat[k]]
            d = ref.rel(xu, ref.center(xu, m, spec["center"]), sc.L)
            dist = np.linalg.norm(d, axis=1)
            # A particle (nearly) at the centre has a kernel of (nearly) zero width: nothing at the radii sampled here.
            far = dist >= 1e-5 * sc.r200[k]
            d, m = d[far], m[far]
            want = ref.kernel_profile(d, m, sc.r200[k], R)
            # Sensitivity to a relative change of 2e-7 in the radii (single precision arguments).
            alt = [ref.kernel_profile(d, m, sc.r200[k], R * (1 + t)) for t in (3e-7, -3e-7)]
        except Skip:
            continue
        done = True
        got = rows[j] * unit
        tol = 2e-3 * want + 3 * np.max(np.abs(np.array(alt) - want), axis=0) + 1e-6 * want.max() + 1e-9 * m.sum() / sc.r200[k] ** 3
        bad = ~(np.abs(got - want) <= tol)
        if np.any(bad):
            i = int(np.argmax(bad))
            raise Violation("object %d at %g R200: kernel density %.8g, expected %.8g" % (k, R[i], got[i], want[i]))
        nontriv |= bool((want > 1e-6 * want.max()).sum() >= 2)
    if not done:
        raise Skip
    return nontriv


def run_mass(spec, ctx):
    """Additivity: the density of an object is the sum of the densities of its halves about the same centre;
    and the integral of 4 pi r^2 rho over all radii is the mass (each particle carries a normalised kernel)."""
    sc = gen.make_scene(spec["scene"])
    k = 0
    xu = ref.unwrap(sc.xyz[sc.cat[k]], sc.L)
    m = sc.m[sc.cat[k]]
    d = ref.rel(xu, ref.center(xu, m, "com"), sc.L)
    dist = np.linalg.norm(d, axis=1) / sc.r200[k]
    if dist.min() < 1e-3:
        raise Skip
    # A grid that resolves every kernel: h/R200 = 0.005 sqrt(d/0.1)
    grid = []
    for x in dist:
        h = 0.005 * np.sqrt(x / 0.1)
        grid.append(x + h * np.arange(-6, 6.01, 0.25))
    g = np.unique(np.concatenate(grid))
    g = g[g > 1e-6]
    if len(g) > 6000:
        raise Skip
    o = obj.direct(sc, ctx, "com")
    rho = call("estDensProfs", o.estDensProfs, g, [k], direct_binning=False)[0]
    y = 4 * np.pi * (g * sc.r200[k]) ** 2 * rho
    tot = float(np.sum(0.5 * (y[1:] + y[:-1]) * np.diff(g * sc.r200[k])))
    # With the nearest particle many kernel widths from the centre the inner cut does not matter.
    if np.any(dist < 36 * 2.5e-4):
        raise Skip
    if abs(tot / m.sum() - 1) > 0.01:
        raise Violation("the kernel density integrates to %.6g, the object's mass is %.6g" % (tot, m.sum()))
    return True


def run_near(spec, ctx):
    """Particles so close to the centre that their kernels reach beyond it, and radii of that size."""
    rng = np.random.default_rng(spec["seed"])
    n = spec["n"]
    size = 10.0 ** rng.uniform(-0.5, 0.5)  # R200
    # A kernel is as wide as the distance at 2.5e-4 R200.
    d = rng.normal(size=(n, 3))
    d *= (10.0 ** rng.uniform(spec["lo"], spec["hi"], size=n) / np.linalg.norm(d, axis=1))[:, None] * size
    m = np.exp(rng.normal(size=n) * 0.5)
    if spec["sym"]:
        d, m = np.concatenate([d, -d]), np.concatenate([m, m])
    # Near a corner of the coordinate system single precision resolves small distances.
    x = d + np.array([0.05, 0.06, 0.07]) * size * spec["off"]
    x -= np.minimum(x.min(axis=0), 0)
    x = x.astype(np.float32).astype(np.float64)
    o = obj.direct(None, ctx, "com", xyz=x, m=m, cat=[list(range(len(x)))], r200=np.array([size]), L=0.0)
    R = np.logspace(spec["lo"] - 0.5, spec["hi"] + 0.3, spec["nr"])
    got = call("estDensProfs", o.estDensProfs, R, [0], direct_binning=False)[0]
    c = ref.com(x, m)
    err = 3e-7 * np.abs(x).max()
    dist = np.linalg.norm(x - c, axis=1)
    if dist.min() < max(300 * err, 2e-5 * size):
        raise Skip
    want = ref.kernel_profile(x - c, m, size, R)
    alt = [ref.kernel_profile(x - c + e * s, m, size, R * (1 + t)) for e in err * np.eye(3) for s in (1, -1) for t in (3e-7, -3e-7)]
    tol = 2e-3 * want + 3 * np.max(np.abs(np.array(alt) - want), axis=0) + 1e-6 * want.max() + 1e-9 * m.sum() / size ** 3
    bad = ~(np.abs(got - want) <= tol)
    if np.any(bad):
        i = int(np.argmax(bad))
        raise Violation("%g R200 from the centre, nearest particle at %g R200: kernel density %.8g, expected %.8g" % (R[i], dist.min() / size, got[i], want[i]))
    return bool((dist < 1.5e-3 * size).any() and (tol < 0.02 * want).sum() >= 2)


CENTER = st.sampled_from(["com", "mode"])
SUBS = [
    Sub("reference", st.fixed_dictionaries({
        "scene": gen.scene_strategy(nobj=(1, 4)), "rads": gen.rads_strategy(1, 10), "center": CENTER, "rev": st.booleans(),
        "outl": st.sampled_from(gen.LENGTHS), "outm": st.sampled_from(gen.MASSES)}), run_ref, quick=3000, weight=2),
    Sub("near", st.fixed_dictionaries({"seed": gen.SEED, "n": st.integers(1, 40), "nr": st.integers(1, 10), "lo": st.sampled_from([-4.3, -4, -3.5, -3]),
                                       "hi": st.sampled_from([-3, -2.5, -2, -0.5]), "sym": st.booleans(), "off": st.sampled_from([0, 0, 1])}),
        run_near, quick=1500),
    Sub("integral", st.fixed_dictionaries({"scene": gen.scene_strategy(nobj=(1, 1), nmin=2, nmax=60)}), run_mass, quick=800),
]
