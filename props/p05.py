"""Object centres and masses."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, obj, ref
from vlib.core import Skip, Sub, Violation, call, check, close

RULE = "a case counts when at least one object with 5 or more particles has an unambiguous reference centre"


def pick(spec_sel, n):
    rng = np.random.default_rng(spec_sel)
    k = rng.integers(1, n + 1)
    return [int(i) for i in rng.permutation(n)[:k]]


def run_ref(spec, ctx):
    sc = gen.make_scene(spec["scene"])
    h = spec["h"]
    lin, min_, lout, mout = obj.units(spec["inl"], spec["inm"], spec["outl"], spec["outm"], h)
    il, im = gen.length_cm("Mpc/h", h), gen.mass_g("E+10Msun/h", h)
    fl, fm = il / lin, im / min_
    o = obj.direct(sc, ctx, spec["center"], xyz=sc.xyz * fl, m=sc.m * fm, r200=sc.r200 * fl, L=sc.L * fl)
    sel = pick(spec["sel"], len(sc.cat))
    got = call("getMassesCenters", o.getMassesCenters, sel if spec["aslist"] else np.array(sel))
    check(len(got) == len(sel), "getMassesCenters returned %d rows for %d objects" % (len(got), len(sel)))
    nontriv = False
    sl = max(float(np.abs(sc.xyz).max()), sc.L, 1e-9)
    for j, k in enumerate(sel):
        m = sc.m[sc.cat[k]]
        close(got["mass"][j], m.sum() * im / mout, rtol=1e-5, what="mass of object %d" % k)
        try:
            xu = ref.unwrap(sc.xyz[sc.cat[k]], sc.L)
            if not ref.compact(xu, sc.L):
                continue
            c = ref.center(xu, m, spec["center"], 1000.0)
        except Skip:
            continue
        g = np.asarray(got["centre"][j], dtype=np.float64).ravel() * lout / il
        d = g - c
        if sc.L > 0:
            # Whole boxes apart is the same point, but the answer must lie in the box.
            d = d - sc.L * np.round(d / sc.L)
            check(np.all(g >= -2e-6 * sc.L) and np.all(g <= sc.L * (1 + 2e-6)), "centre %s of object %d outside the box [0, %g)" % (g, k, sc.L))
        if np.abs(d).max() > 3e-6 * sl:
            raise Violation("centre (%s) of object %d is %s, expected %s (box %g)" % (spec["center"], k, g, c, sc.L))
        if len(m) >= 5:
            nontriv = True
    return nontriv


def run_images(spec, ctx):
    """Which periodic image each particle is listed at makes no difference; neither does the order of the particles."""
    sc = gen.make_scene(spec["scene"])
    rng = np.random.default_rng(spec["k"])
    for c in sc.cat:
        if not ref.compact(ref.unwrap(sc.xyz[c], sc.L), sc.L):
            raise Skip
        xu = ref.unwrap(sc.xyz[c], sc.L)
        ref.center(xu, sc.m[c], spec["center"], 1000.0)
    o = obj.direct(sc, ctx, spec["center"])
    sel = list(range(len(sc.cat)))
    a = call("getMassesCenters", o.getMassesCenters, sel)
    cat2 = [[int(i) for i in rng.permutation(c)] for c in sc.cat]
    o2 = obj.direct(sc, ctx, spec["center"], cat=cat2)
    b = call("getMassesCenters", o2.getMassesCenters, sel)
    close(b["mass"], a["mass"], rtol=1e-5, what="mass after reordering particles")
    d = np.asarray(b["centre"], float) - np.asarray(a["centre"], float)
    if sc.L > 0:
        d = d - sc.L * np.round(d / sc.L)
    sl = max(float(np.abs(sc.xyz).max()), sc.L)
    if np.abs(d).max() > 3e-6 * sl:
        raise Violation("reordering the particles of an object moves its centre by %s" % d[np.argmax(np.abs(d).max(axis=-1))])
    return max(sc.n) >= 5


CENTER = st.sampled_from(["com", "mode"])
SUBS = [
    Sub("reference", st.fixed_dictionaries({
        "scene": gen.scene_strategy(nobj=(1, 5)), "center": CENTER, "h": st.sampled_from([0.6774, 1.0, 0.5]), "aslist": st.booleans(),
        "sel": gen.SEED, "inl": st.sampled_from(gen.LENGTHS), "inm": st.sampled_from(gen.MASSES), "outl": st.sampled_from(gen.LENGTHS),
        "outm": st.sampled_from(gen.MASSES)}), run_ref, quick=4000, weight=2),
    Sub("particle-order", st.fixed_dictionaries({"scene": gen.scene_strategy(), "center": CENTER, "k": gen.SEED}), run_images, quick=2000),
]
