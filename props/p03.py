"""Objects do not influence one another."""
import numpy as np
from hypothesis import strategies as st

from props import p10, p15
from vlib import gad, gen, obj, ref
from vlib.core import Skip, Sub, call, check, same

RULE = "a case counts when an object that has at least one other object next to it is compared, bit by bit, with itself in other company"

WHAT = ["masses", "sph", "kernel", "ell", "local", "global", "local-shell"]


def results(o, sel, what, R, reduced):
    """-> list of per-object structures."""
    cfg = obj.katz_config(R, imin=5, reduced=reduced, shell=what == "local-shell")
    if what == "masses":
        a = call("getMassesCenters(%s)" % sel, o.getMassesCenters, sel)
        return [{"mass": a["mass"][j], "centre": a["centre"][j]} for j in range(len(sel))]
    if what in ("sph", "kernel"):
        a = call("estDensProfs(%s)" % sel, o.estDensProfs, R, sel, direct_binning=what == "sph")
        check(len(a) == len(sel), "%d profiles for %d objects" % (len(a), len(sel)))
        return [{"rho": a[j]} for j in range(len(sel))]
    if what == "ell":
        a = call("estDensProfs(%s)" % sel, o.estDensProfs, R, sel, spherical=False, katz_config=cfg)
        return [{"rho": a[j]} for j in range(len(sel))]
    a = call("getShapeCat%s(%s)" % (what, sel), o.getShapeCatGlobal if what == "global" else o.getShapeCatLocal, sel, cfg)
    check(len(a) == len(sel), "%d shapes for %d objects" % (len(a), len(sel)))
    return [{k: a[k][j] for k in a.dtype.names} for j in range(len(sel))]


def run(spec, ctx):
    sc = gen.make_scene(spec["scene"])
    n = len(sc.cat)
    R = gen.make_rads(spec["R"])
    what, how = spec["what"], spec["how"]
    rng = np.random.default_rng(spec["seed"])
    if what == "ell":
        # Only objects with shapes at every radius have an ellipsoidal profile.
        t = obj.direct(sc, ctx, spec["center"])
        s = results(t, list(range(n)), "local", R, spec["reduced"])
        good = [k for k in range(n) if all(np.all(np.isfinite(s[k][f])) for f in ("d", "q", "s"))]
        if not good:
            raise Skip
        sc.cat = [sc.cat[k] for k in good]
        sc.r200 = sc.r200[good]
        n = len(good)
    ctx.threads(spec["threads"][0])
    o = obj.direct(sc, ctx, spec["center"])
    base = results(o, list(range(n)), what, R, spec["reduced"])
    ctx.threads(spec["threads"][1])
    note = "%s of an object, all objects at once against %s" % (what, how)

    def cmp(sel, got):
        for j, k in enumerate(sel):
            for f in base[k]:
                same(got[j][f], base[k][f], "%s: %s" % (note, f))

    if how == "again":
        cmp(range(n), results(o, list(range(n)), what, R, spec["reduced"]))
    elif how == "subset":
        sel = [int(i) for i in rng.permutation(n)[: rng.integers(1, n + 1)]]
        cmp(sel, results(o, sel, what, R, spec["reduced"]))
    elif how == "reordered":
        p = [int(i) for i in rng.permutation(n)]
        o2 = obj.direct(sc, ctx, spec["center"], cat=[sc.cat[i] for i in p], r200=sc.r200[p])
        cmp(p, results(o2, list(range(n)), what, R, spec["reduced"]))
    elif how == "alone":
        k = int(rng.integers(n))
        o2 = obj.direct(sc, ctx, spec["center"], cat=[list(range(len(sc.cat[k])))], r200=sc.r200[k:k + 1], xyz=sc.xyz[sc.cat[k]].copy(), m=sc.m[sc.cat[k]].copy())
        cmp([k], results(o2, [0], what, R, spec["reduced"]))
    elif how == "others changed":
        k = int(rng.integers(n))
        x, m, r = sc.xyz.copy(), sc.m.copy(), sc.r200.copy()
        mine = np.zeros(len(x), bool)
        mine[sc.cat[k]] = True
        # Moved together, so that the other objects stay objects.
        for j, c in enumerate(sc.cat):
            if j != k:
                c = [i for i in c if not mine[i]]
                x[c] = x[c] + rng.normal(size=3) * 0.01 * sc.size[0]
                r[j] *= rng.uniform(0.5, 1.5)
                if what == "ell":
                    r[j] = sc.r200[j]
                    x[c] = sc.xyz[c]
        if sc.L > 0:
            x[~mine] = np.mod(x[~mine], sc.L)
            x[x >= sc.L] = 0.0
        m[~mine] *= rng.uniform(0.5, 2)
        o2 = obj.direct(sc, ctx, spec["center"], xyz=x, m=m, r200=r)
        cmp([k], [results(o2, list(range(n)), what, R, spec["reduced"])[k]])
    else:
        # More particles and more objects around it, particle numbers shifted.
        q = int(rng.integers(1, 30))
        x = np.concatenate((rng.uniform(0, sc.L or 1.0, size=(q, 3)), sc.xyz))
        m = np.concatenate((rng.uniform(0.1, 1, size=q), sc.m))
        cat = [[i + q for i in c] for c in sc.cat]
        r = list(sc.r200)
        off = 0
        if what != "ell":
            cat = [list(range(q))] + cat
            r = [0.3 * (sc.L or 1.0)] + r
            off = 1
        o2 = obj.direct(sc, ctx, spec["center"], xyz=x, m=m, cat=cat, r200=np.array(r))
        cmp(range(n), results(o2, list(range(off, n + off)), what, R, spec["reduced"]))
    return n > 1


def run_fits(spec, ctx):
    """Best fits and concentrations: each belongs to its own profile, in any company and order."""
    rng = np.random.default_rng(spec["seed"])
    n, prof = spec["n"], spec["profile"]
    obj.units("Mpc/h", "E+10Msun/h", spec["outl"], "Msun/h")
    sc = p10.fake(n, rng, ctx)
    o = obj.direct(sc, ctx)
    R = p10.radii(rng)
    ps = [p10.true_pars(prof, rng, r) for r in sc.r200]
    rho = np.array([ref.models(prof, p, R * r) for p, r in zip(ps, sc.r200)]) * np.exp(rng.normal(size=(n, len(R))) * 0.05)
    if spec["gaps"]:
        rho[rng.uniform(size=rho.shape) < 0.1] = np.nan
    m = p10.method(spec)
    f = o.fitDensProfs if spec["what"] == "fit" else o.estConcentrations
    base = call(spec["what"], f, rho, R, m, list(range(n)))
    for _ in range(2):
        sel = [int(i) for i in rng.permutation(n)[: rng.integers(1, n + 1)]]
        ctx.threads(int(rng.integers(1, 9)))
        got = call(spec["what"], f, rho[sel], R, m, sel)
        check(len(got) == len(sel), "%d results of %s for %d objects" % (len(got), spec["what"], len(sel)))
        for j, k in enumerate(sel):
            same(got[j], base[k], "%s of an object, all objects at once against the selection %s" % (spec["what"], sel))
    return n > 1


def run_vel(spec, ctx):
    """Velocity dispersion shapes in other company, in another order, with other numbers of threads."""
    W = gad.make_universe(spec["u"])
    n = len(gad.centrals(W, gad.TYPES[spec["type"]], 3))
    if n < 2:
        raise Skip
    R = gen.make_rads(spec["R"])
    cfg = obj.katz_config(R, imin=5, reduced=spec["reduced"], shell=spec["shell"])
    o = p15.build(W, spec, ctx, minp=3)
    ctx.threads(spec["threads"][0])
    rng = np.random.default_rng(spec["seed"])
    f = o.getShapeCatVelLocal if spec["loc"] else o.getShapeCatVelGlobal
    base = call("getShapeCatVel", f, list(range(n)), cfg)
    ctx.threads(spec["threads"][1])
    for _ in range(2):
        sel = [int(i) for i in rng.permutation(n)[: rng.integers(1, n + 1)]]
        got = call("getShapeCatVel", f, sel, cfg)
        check(len(got) == len(sel), "%d velocity shapes for %d objects" % (len(got), len(sel)))
        for j, k in enumerate(sel):
            for nm in base.dtype.names:
                same(got[nm][j], base[nm][k], "velocity shape of an object, all objects at once against the selection %s: %s" % (sel, nm))
    return True


SUBS = [
    Sub("company", st.fixed_dictionaries({
        "scene": gen.scene_strategy((2, 6), 1, 70), "R": gen.rads_strategy(3, 6), "center": st.sampled_from(["com", "mode"]), "reduced": st.booleans(),
        "what": st.sampled_from(WHAT), "how": st.sampled_from(["again", "subset", "reordered", "alone", "others changed", "more around"]),
        "threads": st.tuples(st.integers(1, 8), st.integers(1, 8)).map(list), "seed": gen.SEED}), run, quick=6000),
    Sub("crowd", st.fixed_dictionaries({
        "scene": gen.scene_strategy((8, 30), 5, 40), "R": gen.rads_strategy(3, 12), "center": st.sampled_from(["com", "mode"]), "reduced": st.booleans(),
        "what": st.sampled_from(WHAT), "how": st.sampled_from(["again", "subset", "reordered", "alone", "others changed", "more around"]),
        "threads": st.tuples(st.integers(1, 8), st.integers(1, 8)).map(list), "seed": gen.SEED}), run, quick=800),
    Sub("fits", st.fixed_dictionaries({
        "seed": gen.SEED, "n": st.integers(2, 5), "profile": st.sampled_from(list(p10.FIELDS)), "what": st.sampled_from(["fit", "concentration"]), "gaps": st.booleans(),
        "min_method": st.sampled_from(["L-BFGS-B", "Nelder-Mead", "TNC", ""]), "outl": st.sampled_from(gen.LENGTHS)}), run_fits, quick=300, weight=0.8),
    Sub("velocities", st.fixed_dictionaries({
        "u": gad.universe_strategy((3, 7), 50), "type": st.sampled_from(["dm", "dm", "dm", "stars", "gas"]), "R": gen.rads_strategy(1, 6), "center": st.sampled_from(["com", "mode"]),
        "rdef": st.sampled_from(["Rvir", "R200"]), "k": st.integers(0, 100), "reduced": st.booleans(), "shell": st.booleans(), "loc": st.booleans(),
        "threads": st.tuples(st.integers(1, 8), st.integers(1, 8)).map(list), "seed": gen.SEED}), run_vel, quick=500, weight=0.8),
]
