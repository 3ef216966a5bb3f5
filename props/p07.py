"""Spherically averaged density profiles by direct binning."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, obj, ref
from vlib.core import Skip, Sub, Violation, call, check, close

RULE = ("a case counts when at least one object has particles inside at least two bins (reference), respectively when the "
        "mass-conservation sum runs over a non-empty sphere")


def expect(sc, k, center, R):
    xu = ref.unwrap(sc.xyz[sc.cat[k]], sc.L)
    if not ref.compact(xu, sc.L):
        raise Skip("object wider than half the box")
    m = sc.m[sc.cat[k]]
    c = ref.center(xu, m, center, 1000.0)
    d = ref.rel(xu, c, sc.L)
    return d, m


def run_ref(spec, ctx):
    sc = gen.make_scene(spec["scene"])
    R = gen.make_rads(spec["rads"])
    if np.any(np.diff(R) <= 1e-9):
        raise Skip
    o = obj.direct(sc, ctx, spec["center"])
    sel = list(range(len(sc.cat)))
    rows = call("estDensProfs", o.estDensProfs, R, sel if spec["aslist"] else np.array(sel), direct_binning=True, spherical=True)
    check(rows.shape == (len(sel), len(R)), "estDensProfs returned shape %s for %d objects and %d radii" % (rows.shape, len(sel), len(R)))
    nontriv = False
    done = 0
    for k in sel:
        try:
            d, m = expect(sc, k, spec["center"], R)
        except Skip:
            continue
        done += 1
        lo, hi = ref.sph_profile(d, m, sc.r200[k], R)
        got = rows[k]
        tol = 2e-5
        bad = ~((got >= lo * (1 - tol)) & (got <= hi * (1 + tol)))
        if np.any(bad):
            i = int(np.argmax(bad))
            raise Violation("density of object %d in bin %d (r/R200 around %g) is %.8g, the particles in that shell give %.8g..%.8g"
                            % (k, i, R[i], got[i], lo[i], hi[i]))
        check(np.all(got[hi == 0] == 0), "an empty shell has a non-zero density")
        if (hi > 0).sum() >= 2:
            nontriv = True
    if not done:
        raise Skip
    return nontriv


def run_mass(spec, ctx):
    """Sum of density times shell volume = mass inside the outermost radius, in any units, for any refinement."""
    sc = gen.make_scene(spec["scene"])
    R = gen.make_rads(spec["rads"])
    if np.any(np.diff(R) <= 1e-9):
        raise Skip
    h = spec["h"]
    lin, min_, lout, mout = obj.units(spec["inl"], spec["inm"], spec["outl"], spec["outm"], h)
    il, im = gen.length_cm("Mpc/h", h), gen.mass_g("E+10Msun/h", h)
    fl, fm = il / lin, im / min_
    o = obj.direct(sc, ctx, spec["center"], xyz=sc.xyz * fl, m=sc.m * fm, r200=sc.r200 * fl, L=sc.L * fl)
    sel = list(range(len(sc.cat)))
    rows = call("estDensProfs", o.estDensProfs, R, sel)
    coarse = R[-1:] if len(R) < 3 else np.array([R[0], R[-1]])
    rows2 = call("estDensProfs", o.estDensProfs, coarse, sel)
    nontriv = done = False
    for k in sel:
        tot = []
        for RR, rr in ((R, rows), (coarse, rows2)):
            e = ref.sph_edges(RR) * sc.r200[k] * il / lout
            v = 4 / 3 * np.pi * np.diff(e ** 3)
            tot.append(float((rr[k] * v).sum()))
        try:
            d, m = expect(sc, k, spec["center"], R)
        except Skip:
            continue
        done = True
        dist = np.linalg.norm(d, axis=1)
        e = R[-1] * sc.r200[k]
        mi = m[(dist < e * (1 - 1e-5)) & (dist > 1e-7 * sc.r200[k])].sum() * im / mout
        ma = m[dist < e * (1 + 1e-5)].sum() * im / mout
        for t in tot:
            if not (mi * (1 - 3e-5) <= t <= ma * (1 + 3e-5)):
                raise Violation("object %d: densities times shell volumes add up to %.8g, the mass within %g R200 is %.8g..%.8g"
                                % (k, t, R[-1], mi, ma))
        nontriv |= mi > 0
    if not done:
        raise Skip
    return nontriv


CENTER = st.sampled_from(["com", "mode"])
SUBS = [
    Sub("reference", st.fixed_dictionaries({"scene": gen.scene_strategy(), "rads": gen.rads_strategy(1, 9), "center": CENTER,
                                            "aslist": st.booleans()}), run_ref, quick=1200, weight=2),
    Sub("mass-conservation", st.fixed_dictionaries({
        "scene": gen.scene_strategy(nobj=(1, 3)), "rads": gen.rads_strategy(1, 12), "center": CENTER, "h": st.sampled_from([0.6774, 1.0, 0.5]),
        "inl": st.sampled_from(gen.LENGTHS), "inm": st.sampled_from(gen.MASSES), "outl": st.sampled_from(gen.LENGTHS),
        "outm": st.sampled_from(gen.MASSES)}), run_mass, quick=800, weight=1),
]
