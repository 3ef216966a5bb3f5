"""Object inventory: which objects are kept, what the getters report, which selections are valid."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from vlib import gen, obj, ref
from vlib.core import Skip, Sub, call, check, close, expect_raises

RULE = ("a case counts when at least one object is kept and at least one is dropped or the catalogue has two or more objects "
        "(selections: when an invalid selection is refused by at least one public method)")


def run_inventory(spec, ctx):
    """Objects with at least the required number of particles are kept, in order; getters give back what went in."""
    rng = np.random.default_rng(spec["seed"])
    n = max(sum(spec["sizes"]), 1) + 3
    L = spec["L"]
    sc = gen.Scene()
    sc.xyz = rng.uniform(0, L if L else 5.0, size=(n, 3))
    sc.m = rng.uniform(0.1, 2, size=n)
    perm = rng.permutation(n)
    cat, k = [], 0
    for s in spec["sizes"]:
        c = [int(i) for i in perm[k:k + s]]
        if spec["overlap"] and s > 1 and cat and len(cat[-1]):
            c[0] = cat[-1][0]
        cat.append(c)
        k += s
    r200 = rng.uniform(0.1, 2, size=len(cat))
    sc.L, sc.cat, sc.r200 = L, cat, r200
    lin, mi, lo, mo = obj.units(spec["inl"], spec["inm"], spec["outl"], spec["outm"])
    fi, gi = gen.length_cm("Mpc/h", 0.6774) / lin, gen.mass_g("E+10Msun/h", 0.6774) / mi
    fo, go = gen.length_cm("Mpc/h", 0.6774) / lo, gen.mass_g("E+10Msun/h", 0.6774) / mo
    kinds = spec["kinds"]
    x, m, r = sc.xyz * fi, sc.m * gi, r200 * fi
    c_in = [list(c) if kinds == "list" else np.array(c, dtype=np.int64) for c in cat]
    keep = (x.copy(), m.copy(), [list(c) for c in c_in], r.copy())
    if spec["single"] and len(cat) == 1 and cat[0]:
        o = obj.direct(sc, ctx, minp=spec["minp"], xyz=x, m=m, cat=list(c_in[0]) if spec["flat"] else c_in, r200=float(r[0]) if spec["scalar"] else r, L=L * fi)
    else:
        o = obj.direct(sc, ctx, minp=spec["minp"], xyz=x, m=m, cat=c_in, r200=r, L=L * fi)
    check(np.array_equal(x, keep[0]) and np.array_equal(m, keep[1]) and np.array_equal(r, keep[3]) and [list(c) for c in c_in] == keep[2],
          "the constructor changed its arguments")
    if spec["mutate"]:
        # What the user does to the arrays afterwards does not concern the object.
        x[:] = 0.5
        m[:] = 7.0
        r[:] = 1.0
        for c in c_in:
            c[:] = c[:1] * 0 if kinds == "array" else []
    ok = [i for i, c in enumerate(cat) if len(c) >= spec["minp"]]
    idx, size = call("getIdxCat", o.getIdxCat)
    check(list(size) == [len(cat[i]) for i in ok], "kept objects have %s particles; of %s with a minimum of %d it should be %s" % (
        list(size), spec["sizes"], spec["minp"], [len(cat[i]) for i in ok]))
    want = [j for i in ok for j in cat[i]]
    check([int(v) for v in idx] == want, "particle indices %s, expected %s" % (list(idx)[:20], want[:20]))
    close(call("getR200", o.getR200), r200[ok] * fo, rtol=1e-6, what="getR200")
    a, b = call("getXYZMasses", o.getXYZMasses)
    close(a, sc.xyz * fo, rtol=1e-6, atol=1e-9 * fo, what="positions from getXYZMasses")
    close(b, sc.m * go, rtol=1e-6, what="masses from getXYZMasses")
    if not ok:
        expect_raises("getMassesCenters([0]) without any object", ValueError, o.getMassesCenters, [0])
        return False
    sel = [int(i) for i in rng.permutation(len(ok))[: rng.integers(1, len(ok) + 1)]]
    mc = call("getMassesCenters(%s)" % sel, o.getMassesCenters, sel)
    check(len(mc) == len(sel), "%d entries for %d objects" % (len(mc), len(sel)))
    for j, s in enumerate(sel):
        close(mc["mass"][j], sc.m[cat[ok[s]]].sum() * go, rtol=1e-5, what="mass of object %d" % s)
    mc2 = call("getMassesCenters(array)", o.getMassesCenters, np.array(sel))
    close(mc2["mass"], mc["mass"], rtol=0, what="list against array selection: masses")
    close(mc2["centre"], mc["centre"], rtol=0, what="list against array selection: centres")
    return len(cat) > 1


def methods(o, R, n):
    """Every public method that takes a selection -> [(name, function of selection)]."""
    cfg = obj.katz_config(R)
    rho = np.ones((n, len(R)))
    fit = {"profile": "nfw", "min_method": "L-BFGS-B"}
    return [
        ("getMassesCenters", lambda s: o.getMassesCenters(s)),
        ("estDensProfs", lambda s: o.estDensProfs(R, s)),
        ("estDensProfs (kernel)", lambda s: o.estDensProfs(R, s, direct_binning=False)),
        ("estDensProfs (ellipsoidal)", lambda s: o.estDensProfs(R, s, spherical=False, katz_config=cfg)),
        ("fitDensProfs", lambda s: o.fitDensProfs(rho[:len(s)], R, fit, s)),
        ("estConcentrations", lambda s: o.estConcentrations(rho[:len(s)], R, fit, s)),
        ("plotDensProfs", lambda s: o.plotDensProfs(rho[:len(s)], R, rho[:len(s)], R, fit, 2, s)),
        ("getShapeCatLocal", lambda s: o.getShapeCatLocal(s, cfg)),
        ("getShapeCatGlobal", lambda s: o.getShapeCatGlobal(s, cfg)),
        ("dumpShapeCatLocal", lambda s: o.dumpShapeCatLocal(s, cfg)),
        ("dumpShapeCatGlobal", lambda s: o.dumpShapeCatGlobal(s, cfg)),
        ("vizLocalShapes", lambda s: o.vizLocalShapes(s, cfg)),
        ("vizGlobalShapes", lambda s: o.vizGlobalShapes(s, cfg)),
        ("plotGlobalEpsHist", lambda s: o.plotGlobalEpsHist(4, s)),
        ("plotLocalEpsHist", lambda s: o.plotLocalEpsHist(0.5, 4, s)),
        ("plotLocalTHist", lambda s: o.plotLocalTHist(4, 0.5, s, cfg)),
        ("plotGlobalTHist", lambda s: o.plotGlobalTHist(4, s, cfg)),
        ("plotShapeProfs", lambda s: o.plotShapeProfs(2, s, cfg)),
    ]


FAR = [2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**33 + 1, 255, 256, 65535, 65536, 10**12]


def run_selection(spec, ctx):
    """Empty, negative, repeated, fractional and too large object numbers are refused by every method, and leave no trace."""
    sc = gen.make_scene(spec["scene"])
    o = obj.direct(sc, ctx, spec["center"])
    n = len(sc.cat)
    k = spec["kind"]
    good = [int(i) for i in np.random.default_rng(spec["seed"]).permutation(n)]
    if k == "empty":
        bad = []
    elif k == "negative":
        bad = good[:-1] + [-1 - (spec["seed"] % 3 if not spec["far"] else FAR[spec["seed"] % len(FAR)])]
    elif k == "repeated":
        bad = good + [good[spec["seed"] % n]]
    elif k == "fraction":
        bad = list(good)
        bad[spec["seed"] % n] += [0.5, 0.25, -0.5, 1e-3, 0.999][spec["seed"] % 5]
    else:
        bad = good[1:] + [n + (spec["seed"] % 5 if not spec["far"] else FAR[spec["seed"] % len(FAR)])]
    what = "object numbers %s of %d objects" % (bad, n)
    if spec["array"]:
        bad = np.array(bad)
    R = np.array([0.2, 0.5, 0.9])
    viz, cat = ctx.dir("viz"), ctx.dir("cat")
    import os
    for name, f in methods(o, R, n + 2):
        if spec["which"] % 3 == hash_name(name) % 3:
            expect_raises("%s with %s" % (name, what), ValueError, f, bad)
    left = os.listdir(viz) + os.listdir(cat)
    check(not left, "files left by refused selections: %s" % left)
    # The instance is as good as before.
    mc = call("getMassesCenters after refused selections", o.getMassesCenters, list(range(n)))
    close(mc["mass"], [sc.m[c].sum() for c in sc.cat], rtol=1e-5, what="masses after refused selections")
    return True


def hash_name(s):
    return sum(ord(c) for c in s)


def run_info(spec, ctx):
    """getObjInfo reports the numbers of the catalogue."""
    sc = gen.make_scene(spec["scene"])
    o = obj.direct(sc, ctx, spec["center"])
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        call("getObjInfo", o.getObjInfo)
    t = buf.getvalue()
    sizes = [len(c) for c in sc.cat]
    import re
    nums = [int(v) for line in t.splitlines() if "umber of objects" in line for v in re.findall(r"(?<![\w.])\d+(?![\w.])", line.split(":", 1)[1])]
    check(len(sizes) in nums, "getObjInfo does not report the number of objects (%d): %r" % (len(sizes), t[-400:]))
    return len(sizes) > 1


SIZES = st.lists(st.integers(1, 12), min_size=1, max_size=7)
SUBS = [
    Sub("inventory", st.fixed_dictionaries({
        "seed": gen.SEED, "sizes": st.one_of(st.lists(st.integers(0, 12), min_size=2, max_size=7), SIZES, st.lists(st.integers(1, 12), min_size=1, max_size=1)), "minp": st.integers(1, 9), "overlap": st.booleans(), "L": st.sampled_from([0.0, 10.0, 75.0]),
        "kinds": st.sampled_from(["list", "array"]), "single": st.booleans(), "flat": st.booleans(), "scalar": st.booleans(), "mutate": st.booleans(),
        "inl": st.sampled_from(gen.LENGTHS), "inm": st.sampled_from(gen.MASSES), "outl": st.sampled_from(gen.LENGTHS),
        "outm": st.sampled_from(gen.MASSES)}), run_inventory, quick=4000),
    Sub("selection", st.fixed_dictionaries({"scene": gen.scene_strategy((1, 4), 1, 40), "center": st.sampled_from(["com", "mode"]), "seed": st.integers(0, 10**6),
                                            "kind": st.sampled_from(["empty", "negative", "repeated", "fraction", "large"]), "array": st.booleans(), "far": st.booleans(),
                                            "which": st.integers(0, 2)}), run_selection, quick=1600),
    Sub("info", st.fixed_dictionaries({"scene": gen.scene_strategy((1, 6), 1, 40), "center": st.sampled_from(["com", "mode"])}), run_info, quick=300, weight=0.3),
]
