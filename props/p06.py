"""Translations of a periodic box."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, obj, ref
from vlib.core import Skip, Sub, Violation, call, check, close

RULE = ("a case counts when the shift moves at least one object across a face of the box (its particles on both sides, before or "
        "after) and the compared results are unambiguous")


def setup(spec):
    sc = gen.make_scene(spec["scene"])
    L = sc.L
    x2 = np.mod(sc.xyz + np.array(spec["shift"]) * L, L)
    x2[x2 >= L] = 0.0
    straddle = False
    info = []
    for c in sc.cat:
        xu = ref.unwrap(sc.xyz[c], L)
        if not ref.compact(xu, L):
            raise Skip
        info.append(xu)
        for x in (sc.xyz[c], x2[c]):
            straddle |= bool(np.any(x.max(axis=0) - x.min(axis=0) > L / 2))
    return sc, x2, info, straddle


def run_centers(spec, ctx):
    sc, x2, info, straddle = setup(spec)
    for c, xu in zip(sc.cat, info):
        ref.center(xu, sc.m[c], spec["center"])
    sel = list(range(len(sc.cat)))
    a = call("getMassesCenters", obj.direct(sc, ctx, spec["center"]).getMassesCenters, sel)
    b = call("getMassesCenters", obj.direct(sc, ctx, spec["center"], xyz=x2).getMassesCenters, sel)
    close(b["mass"], a["mass"], rtol=1e-6, what="masses after shifting the box")
    d = np.asarray(b["centre"], float) - np.asarray(a["centre"], float) - np.array(spec["shift"]) * sc.L
    d -= sc.L * np.round(d / sc.L)
    if np.abs(d).max() > 3e-6 * sc.L:
        raise Violation("shifting all particles of the periodic box by %s L moves the centres by something else (off by %s)" % (spec["shift"], d.tolist()))
    return straddle


def run_dens(spec, ctx):
    sc, x2, info, straddle = setup(spec)
    R = gen.make_rads(spec["rads"])
    if np.any(np.diff(R) <= 1e-9):
        raise Skip
    ok = []
    for k, (c, xu) in enumerate(zip(sc.cat, info)):
        cen = ref.center(xu, sc.m[c], spec["center"])
        d = ref.rel(xu, cen, sc.L)
        dist = np.linalg.norm(d, axis=1)
        if spec["kernel"]:
            if dist.min() < 1e-6 * sc.r200[k]:
                continue
            # The kernel is a very narrow one (a few per mille of the radius), so that shifts by an ulp are amplified.
            ok.append(k)
        else:
            e = ref.sph_edges(R) * sc.r200[k]
            if np.abs(dist[:, None] / e[None, 1:] - 1).min() > 1e-5 and dist.min() > 1e-5 * sc.r200[k]:
                ok.append(k)
    if not ok:
        raise Skip
    sel = list(range(len(sc.cat)))
    res = [call("estDensProfs", o.estDensProfs, R, sel, direct_binning=not spec["kernel"])
           for o in (obj.direct(sc, ctx, spec["center"]), obj.direct(sc, ctx, spec["center"], xyz=x2))]
    for k in ok:
        scale = np.nanmax(np.abs(res[0][k]))
        close(res[1][k], res[0][k], rtol=2e-3 if spec["kernel"] else 1e-5, atol=scale * (1e-5 if spec["kernel"] else 1e-9),
              what="densities of object %d after shifting the box by %s L" % (k, spec["shift"]))
    return straddle


def run_shapes(spec, ctx):
    sc, x2, info, straddle = setup(spec)
    R = gen.make_rads(spec["rads"])
    if np.any(np.diff(R) <= 1e-9):
        raise Skip
    cfg = obj.katz_config(R, reduced=spec["reduced"], shell=spec["shell"], imin=spec["imin"])
    good = {}
    for k, (c, xu) in enumerate(zip(sc.cat, info)):
        try:
            cen = ref.center(xu, sc.m[c], spec["center"], ref.extent(xu))
        except Skip:
            continue
        d = ref.rel(xu, cen, sc.L)
        rs = ref.local_shapes(d, sc.m[c], sc.r200[k], R, 1e-2, 100, spec["imin"], spec["reduced"], spec["shell"])
        good[k] = [i for i, r in enumerate(rs) if not isinstance(r, Skip)]
    sel = list(range(len(sc.cat)))
    a = call("getShapeCatLocal", obj.direct(sc, ctx, spec["center"]).getShapeCatLocal, sel, cfg)
    b = call("getShapeCatLocal", obj.direct(sc, ctx, spec["center"], xyz=x2).getShapeCatLocal, sel, cfg)
    n = 0
    for k, ii in good.items():
        for i in ii:
            n += bool(a["is_conv"][k, i])
            for f in ("d", "q", "s"):
                close(b[f][k, i], a[f][k, i], rtol=2e-4, what="%s of object %d at radius %g after shifting the box" % (f, k, R[i]))
    if not good:
        raise Skip
    return straddle and n > 0


def run_global(spec, ctx):
    sc, x2, info, straddle = setup(spec)
    cfg = obj.katz_config([1.0], reduced=spec["reduced"], imin=spec["imin"])
    good = []
    for k, (c, xu) in enumerate(zip(sc.cat, info)):
        try:
            d = ref.rel(xu, ref.center(xu, sc.m[c], spec["center"], ref.extent(xu)), sc.L)
            ref.katz(d, sc.m[c], sc.r200[k] + 6.0, 1e-2, 100, spec["imin"], spec["reduced"])
            good.append(k)
        except Skip:
            continue
    if not good:
        raise Skip
    sel = list(range(len(sc.cat)))
    a = call("getShapeCatGlobal", obj.direct(sc, ctx, spec["center"]).getShapeCatGlobal, sel, cfg)
    b = call("getShapeCatGlobal", obj.direct(sc, ctx, spec["center"], xyz=x2).getShapeCatGlobal, sel, cfg)
    n = 0
    for k in good:
        n += bool(np.ravel(a["is_conv"][k])[0])
        for f in ("d", "q", "s"):
            close(b[f][k], a[f][k], rtol=2e-4, what="global %s of object %d after shifting the box" % (f, k))
    return straddle and n > 0


CENTER = st.sampled_from(["com", "mode"])
U = gen.fl(0.0, 1.0)
SHIFT = st.tuples(U, U, U).map(list)
PER = dict(periodic=(True,), nmin=2)
SUBS = [
    Sub("centres", st.fixed_dictionaries({"scene": gen.scene_strategy(**PER), "shift": SHIFT, "center": CENTER}), run_centers, quick=2500),
    Sub("densities", st.fixed_dictionaries({"scene": gen.scene_strategy(**PER), "rads": gen.rads_strategy(1, 8), "shift": SHIFT,
                                            "center": CENTER, "kernel": st.booleans()}), run_dens, quick=2500, weight=1.5),
    Sub("global-shapes", st.fixed_dictionaries({"scene": gen.scene_strategy(periodic=(True,), nmin=5), "shift": SHIFT, "center": CENTER, "reduced": st.booleans(),
                                                "imin": st.sampled_from([4, 10])}), run_global, quick=1000, weight=0.7),
    Sub("shapes", st.fixed_dictionaries({"scene": gen.scene_strategy(periodic=(True,), nmin=20), "rads": gen.rads_strategy(1, 5),
                                         "shift": SHIFT, "center": CENTER, "reduced": st.booleans(), "shell": st.booleans(),
                                         "imin": st.sampled_from([4, 10])}), run_shapes, quick=1500, weight=1.5),
]
