"""Shapes of the velocity dispersion tensor of Gadget halos."""
import numpy as np
from hypothesis import strategies as st

from props import p12, p13
from props.p16 import unit_setup
from vlib import gad, gen, obj, ref
from vlib.core import Skip, Sub, Violation, call, check, close

RULE = ("a case counts when at least one object (and radius) has an unambiguous converged reference solution with axis ratio s < 0.98 "
        "(reference, galilean), or when the dispersion tensor of the drawn velocities is recovered for 1000 or more particles (recovery)")


def build(U, spec, ctx, fl=1.0, fm=1.0, minp=8, tag=""):
    from cosmic_profiles import DensShapeProfsGadget
    V = gad.convert(U, fl, fm)
    p = gad.write_hdf5(V, ctx.dir("snapdir" + tag), nfiles=1, dt=np.float64, seed=spec["k"])
    g = gad.write_groups(V, ctx.dir("groups" + tag), nfiles=1, seed=spec["k"], dt=np.float64)
    return call("DensShapeProfsGadget()", DensShapeProfsGadget, p, g, spec["type"], "024", ctx.dir("viz" + tag), ctx.dir("cat" + tag),
                RVIR_OR_R200=spec["rdef"], MIN_NUMBER_PTCS=minp, CENTER=spec["center"])


def offsets(U, t, s, n, center):
    x = ref.unwrap(U.pos[t][s:s + n], U.L)
    if not ref.compact(x, U.L):
        raise Skip("wide")
    m = U.mass[t][s:s + n]
    d = ref.rel(x, ref.center(x, m, center, ref.extent(x)), U.L)
    if ref.extent(d) < 1e-6 * U.L:
        raise Skip("point")
    v = U.vel[t][s:s + n]
    return d, m, v - (v * m[:, None]).sum(axis=0) / m.sum()


def run_ref(spec, ctx):
    U = gad.make_universe(spec["u"])
    fl, fm, ol, om = unit_setup(spec)
    t = gad.TYPES[spec["type"]]
    want = gad.centrals(U, t, 8)
    if not want:
        raise Skip
    R = gen.make_rads(spec["rads"])
    if np.any(np.diff(R) <= 1e-6):
        raise Skip
    ctx.threads(spec["threads"])
    o = build(U, spec, ctx, fl, fm)
    sel = list(range(len(want)))[:: -1 if spec["k"] % 2 else 1]
    cfg = obj.katz_config(R, tol=spec["tol"], wall=spec["wall"], imin=spec["imin"], reduced=spec["reduced"], shell=spec["shell"])
    loc = spec["kind"] == "local"
    got = call("getShapeCatVel%s" % spec["kind"], o.getShapeCatVelLocal if loc else o.getShapeCatVelGlobal, sel, cfg)
    check(got["q"].shape == ((len(sel), len(R)) if loc else (len(sel),)), "getShapeCatVel: shape %s" % (got["q"].shape,))
    nt = done = False
    for j, k in enumerate(sel):
        g, s, n = want[k]
        r200 = (U.r_th if spec["rdef"] == "Rvir" else U.r_mean)[g]
        try:
            d, m, v = offsets(U, t, s, n, spec["center"])
            if loc:
                rs = ref.local_shapes(d, m, r200, R, spec["tol"], spec["wall"], spec["imin"], spec["reduced"], spec["shell"], vel=v)
            else:
                rs = [ref.katz(d, m, r200 + 6.0, spec["tol"], spec["wall"], spec["imin"], spec["reduced"], vel=v)]
        except Skip:
            continue
        for i, r in enumerate(rs):
            if isinstance(r, Skip):
                continue
            done = True
            what = "velocity shape of object %d (%d particles), %s" % (k, n, "at %g R200" % R[i] if loc else "global")
            if loc:
                c = p12.compare(got, k, j, i, r, ol, what)
            else:
                c = p13.compare(got, j, r, ol, what, d=r200 + 6.0)
            nt |= c and r.s < 0.98
    if not done:
        raise Skip
    return nt


def run_galilean(spec, ctx):
    """A boost, a rescaling or a reflection of all velocities leaves the axis ratios alone."""
    U = gad.make_universe(spec["u"])
    t = gad.TYPES[spec["type"]]
    want = gad.centrals(U, t, 8)
    if not want:
        raise Skip
    rng = np.random.default_rng(spec["k"])
    R = gen.make_rads(spec["rads"])
    if np.any(np.diff(R) <= 1e-6):
        raise Skip
    cfg = obj.katz_config(R, imin=6, reduced=spec["reduced"], shell=spec["shell"])
    W = gad.convert(U, 1, 1)
    how = spec["how"]
    rot = np.eye(3)
    fac = 1.0
    if how == "boost":
        W.vel = {q: U.vel[q] + rng.normal(size=3) * 1000 for q in U.vel}
    elif how == "scale":
        fac = 10.0 ** rng.uniform(-2, 2)
        W.vel = {q: U.vel[q] * fac for q in U.vel}
    else:
        # Each halo with its own bulk motion.
        W.vel = {q: U.vel[q].copy() for q in U.vel}
        for g, s, n in want:
            W.vel[t][s:s + n] += rng.normal(size=3) * 2000
    a, b = build(U, spec, ctx), build(W, spec, ctx, tag="b")
    sel = list(range(len(want)))
    loc = spec["kind"] == "local"
    x = call("getShapeCatVel", a.getShapeCatVelLocal if loc else a.getShapeCatVelGlobal, sel, cfg)
    y = call("getShapeCatVel", b.getShapeCatVelLocal if loc else b.getShapeCatVelGlobal, sel, cfg)
    nt = False
    for k in sel:
        g, s, n = want[k]
        r200 = (U.r_th if spec["rdef"] == "Rvir" else U.r_mean)[g]
        try:
            d, m, v = offsets(U, t, s, n, spec["center"])
            rs = ref.local_shapes(d, m, r200, R, 1e-2, 100, 6, spec["reduced"], spec["shell"], vel=v) if loc else [
                ref.katz(d, m, r200 + 6.0, 1e-2, 100, 6, spec["reduced"], vel=v)]
        except Skip:
            continue
        for i, r in enumerate(rs):
            if isinstance(r, Skip):
                continue
            p, q = (x[k, i], y[k, i]) if loc else (x[k], y[k])
            check(bool(p["is_conv"]) == bool(q["is_conv"]), "%s: convergence of object %d changed" % (how, k))
            for f in ("q", "s", "d"):
                close(q[f], p[f], rtol=2e-3 if f != "d" else 1e-5, what="%s: %s of the velocity shape of object %d" % (how, f, k))
            nt |= bool(p["is_conv"]) and p["s"] < 0.98
    return nt


def run_recover(spec, ctx):
    """Gaussian velocities with known dispersions, whatever the positions: ratios and axes come out."""
    rng = np.random.default_rng(spec["seed"])
    n = spec["n"]
    q, s = max(spec["q"], spec["s"]), min(spec["q"], spec["s"])
    U = gad.Universe()
    U.L, U.z, U.a = 20.0, spec["z"], 1 / (1 + spec["z"])
    x = rng.normal(size=(n, 3))
    x = x / np.linalg.norm(x, axis=1)[:, None] * (rng.uniform(size=n)[:, None] * 0.9)
    rot = gen.rotation(rng)
    v = rng.normal(size=(n, 3)) * 200 * np.array([1, q, s])
    U.pos = {1: np.mod(x, U.L), 0: np.zeros((0, 3)), 4: np.zeros((0, 3))}
    U.vel = {1: v @ rot.T + rng.normal(size=3) * 500, 0: np.zeros((0, 3)), 4: np.zeros((0, 3))}
    U.mass = {1: np.full(n, 0.01), 0: np.zeros(0), 4: np.zeros(0)}
    U.mt, U.n = np.zeros(6), np.array([0, n, 0, 0, 0, 0])
    U.nsubs, U.fof_len, U.sub_len = np.array([1]), np.array([[0, n, 0, 0, 0, 0]]), np.array([[0, n, 0, 0, 0, 0]])
    U.r_th = U.r_mean = np.array([1.0])
    o = build(U, spec, ctx)
    cfg = obj.katz_config([3.0])
    got = call("getShapeCatVel", o.getShapeCatVelLocal if spec["kind"] == "local" else o.getShapeCatVelGlobal, [0], cfg)
    check(bool(np.ravel(got["is_conv"])[0]), "velocity shape of %d particles did not converge" % n)
    gq, gs = float(np.ravel(got["q"])[0]), float(np.ravel(got["s"])[0])
    tol = 0.03 + 4 / np.sqrt(n)
    if abs(gq - q) > tol or abs(gs - s) > tol:
        raise Violation("dispersions with ratios q=%g, s=%g measured as q=%g, s=%g (%d particles)" % (q, s, gq, gs, n))
    mj, mn = np.ravel(got["major"]), np.ravel(got["minor"])
    if q < 0.75:
        check(abs(mj @ rot[:, 0]) > 0.9, "major axis %s, the velocities are elongated along %s" % (mj, rot[:, 0]))
    if s < 0.75 * q:
        check(abs(mn @ rot[:, 2]) > 0.9, "minor axis %s, the velocities are flattened along %s" % (mn, rot[:, 2]))
    return True


def run_massive(spec, ctx):
    """Halos of very many particles moving fast: their mean velocity must come out as exactly as that of small ones."""
    rng = np.random.default_rng(spec["seed"])
    n = spec["n"]
    U = gad.Universe()
    U.L, U.z, U.a = 20.0, 0.0, 1.0
    x = rng.normal(size=(n, 3))
    x *= (0.9 * rng.uniform(size=n) / np.linalg.norm(x, axis=1))[:, None]
    v = rng.normal(size=(n, 3)) * 100 * np.array([1, spec["q"], spec["s"]]) @ gen.rotation(rng).T
    bulk = rng.normal(size=3)
    v += bulk / np.linalg.norm(bulk) * spec["bulk"]
    e3, e1 = np.zeros((0, 3)), np.zeros(0)
    U.pos, U.vel = {0: e3, 1: np.mod(x, U.L), 4: e3}, {0: e3, 1: v, 4: e3}
    m = np.full(n, spec["m"]) if spec["equal"] else spec["m"] * rng.uniform(0.5, 1.5, n)
    U.mass = {0: e1, 1: m, 4: e1}
    U.mt, U.n = np.zeros(6), np.array([0, n, 0, 0, 0, 0])
    U.nsubs, U.fof_len, U.sub_len = np.array([1]), np.array([[0, n, 0, 0, 0, 0]]), np.array([[0, n, 0, 0, 0, 0]])
    U.r_th = U.r_mean = np.array([1.0])
    o = build(U, spec, ctx)
    d, m, vr = offsets(U, 1, 0, n, "com")
    r = ref.katz(d, m, 4.0 if spec["kind"] == "local" else 7.0, 1e-2, 100, 10, spec["reduced"], vel=vr)
    if isinstance(r, Skip):
        raise r
    got = call("getShapeCatVel", o.getShapeCatVelLocal if spec["kind"] == "local" else o.getShapeCatVelGlobal, [0],
               obj.katz_config([4.0], reduced=spec["reduced"]))
    for f in ("q", "s"):
        close(float(np.ravel(got[f])[0]), getattr(r, f), rtol=3e-5, what="%s of the velocity shape of a halo of %d particles moving at %g km/s" % (f, n, spec["bulk"]))
    return True


BASE = {"k": st.integers(0, 1000), "type": st.sampled_from(["dm", "stars", "gas"]), "rdef": st.sampled_from(["Rvir", "R200"]),
        "center": st.sampled_from(["com", "mode"]), "rads": gen.rads_strategy(1, 5), "reduced": st.booleans(), "shell": st.booleans(),
        "kind": st.sampled_from(["local", "global"])}
UN = {"h": st.sampled_from([0.6774, 1.0]), "inl": st.sampled_from(gen.LENGTHS), "inm": st.sampled_from(gen.MASSES),
      "outl": st.sampled_from(gen.LENGTHS), "outm": st.sampled_from(gen.MASSES), "tol": st.sampled_from([1e-2, 1e-1]),
      "wall": st.sampled_from([100, 100, 4]), "imin": st.sampled_from([4, 10, 30]), "threads": st.sampled_from([1, 2, 3])}
SUBS = [
    Sub("reference", st.fixed_dictionaries(dict(BASE, **UN, u=gad.universe_strategy((1, 4), 200))), run_ref, quick=1600, weight=2),
    Sub("galilean", st.fixed_dictionaries(dict(BASE, u=gad.universe_strategy((1, 3), 150), how=st.sampled_from(["boost", "scale", "bulk"]))),
        run_galilean, quick=800),
    Sub("recovery", st.fixed_dictionaries(dict(BASE, seed=gen.SEED, n=st.sampled_from([1000, 3000]), q=gen.fl(0.3, 1.0), s=gen.fl(0.3, 1.0),
                                               z=st.sampled_from([0.0, 1.0, 3.0]), type=st.just("dm"))), run_recover, quick=200),
    Sub("massive", st.fixed_dictionaries(dict(BASE, seed=gen.SEED, n=st.sampled_from([200000, 400000, 50000, 800000]), q=gen.fl(0.3, 1.0), s=gen.fl(0.3, 1.0),
                                              m=gen.fl(0.01, 2.0), equal=st.sampled_from([True, True, True, False]), bulk=st.sampled_from([3000.0, 1000.0, 3000.0, 0.0]), type=st.just("dm"),
                                              center=st.just("com"), shell=st.just(False))), run_massive, quick=12),
]
