"""What every shape must satisfy: invariants, covariance, recovery of known shapes."""
import numpy as np
from hypothesis import strategies as st

from props.p12 import offsets
from vlib import gen, obj, ref
from vlib.core import Skip, Sub, Violation, call, check, close

RULE = ("a case counts when at least one (object, radius) shape converged with s < 0.98 and survived the ambiguity rules of the reference "
        "(transform), any converged (invariants), or the sampled ellipsoid has 3000 or more particles (recovery)")


def shapes(o, sel, cfg, kind):
    if kind == "global":
        g = call("getShapeCatGlobal", o.getShapeCatGlobal, sel, cfg)
        return {n: np.asarray(g[n]).reshape((len(sel), 1) + ((3,) if n in ("minor", "inter", "major") else ())) for n in g.dtype.names}
    g = call("getShapeCatLocal", o.getShapeCatLocal, sel, cfg)
    return {n: np.asarray(g[n]) for n in g.dtype.names}


def run_inv(spec, ctx):
    sc = gen.make_scene(spec["scene"])
    R = gen.make_rads(spec["rads"])
    if np.any(np.diff(R) <= 1e-6):
        raise Skip
    o = obj.direct(sc, ctx, spec["center"])
    sel = list(range(len(sc.cat)))
    cfg = obj.katz_config(R, imin=4, reduced=spec["reduced"], shell=spec["shell"])
    g = shapes(o, sel, cfg, spec["kind"])
    c = g["is_conv"].astype(bool)
    for n in ("d", "q", "s"):
        check(np.array_equal(np.isnan(g[n]), ~c) or n == "d", "%s is NaN exactly where the shape is unconverged: %s vs is_conv %s" % (n, g[n], c))
        check(not np.any(np.isnan(g[n][c])), "%s is NaN for a converged shape" % n)
    for n in ("minor", "inter", "major"):
        check(np.array_equal(np.isnan(g[n]).all(axis=-1), ~c) and np.array_equal(np.isnan(g[n]).any(axis=-1), ~c), "%s axis NaN pattern differs from is_conv" % n)
    if not c.any():
        return False
    q, s = g["q"][c], g["s"][c]
    check(np.all(s > 0) and np.all(s <= q * (1 + 1e-6)) and np.all(q <= 1 + 1e-6), "axis ratios out of order: q=%s s=%s" % (q, s))
    ax = np.stack([g["minor"][c], g["inter"][c], g["major"][c]], axis=1).astype(float)
    gram = np.einsum("nik,njk->nij", ax, ax)
    if np.abs(gram - np.eye(3)).max() > 1e-5:
        raise Violation("principal axes not orthonormal: Gram matrix %s" % gram[np.argmax(np.abs(gram - np.eye(3)).max(axis=(1, 2)))].tolist())
    if spec["kind"] == "local":
        for j, k in enumerate(sel):
            for i in range(len(R)):
                if c[j, i]:
                    close(g["d"][j, i], sc.r200[k] * R[i], rtol=1e-5, what="d of a local shape at %g R200" % R[i])
    return True


def run_transform(spec, ctx):
    sc = gen.make_scene(spec["scene"])
    R = gen.make_rads(spec["rads"])
    if np.any(np.diff(R) <= 1e-6):
        raise Skip
    t = spec["t"]
    rng = np.random.default_rng(spec["k"])
    rot, lam, mu, shift = np.eye(3), 1.0, 1.0, np.zeros(3)
    if t == "rotate" and spec["center"] == "mode":
        # The first radius of the shrinking sphere is the extent along the coordinate axes, which a rotation changes.
        t = "permute"
    if t == "rotate":
        rot = gen.rotation(rng)
    elif t == "permute":
        rot = np.eye(3)[rng.permutation(3)]
        if spec["k"] % 2:
            rot = rot * rng.choice([-1.0, 1.0], size=3)[:, None]
    elif t == "scale":
        # (down to a fraction of a parsec/h)
        lam = 2.0 ** rng.integers(-18, 5) if spec["kind"] == "local" else 1.0
        mu = 10.0 ** rng.uniform(-2, 2)
    else:
        shift = rng.uniform(0, 5, size=3)
    c0 = sc.center0[0]
    # The objects stay in their own places for a rotation: one object only.
    x2 = ((sc.xyz - c0) @ rot.T) * lam + c0 + shift
    cfg = obj.katz_config(R, imin=spec["imin"], reduced=spec["reduced"], shell=spec["shell"])
    d, m = offsets(sc, 0, spec["center"])
    if spec["kind"] == "local":
        rs = ref.local_shapes(d, m, sc.r200[0], R, 1e-2, 100, spec["imin"], spec["reduced"], spec["shell"])
        # ... and the transformed object in the reference, so that ambiguity there is seen as well.
        rs2 = ref.local_shapes((d @ rot.T) * lam, m, sc.r200[0] * lam, R, 1e-2, 100, spec["imin"], spec["reduced"], spec["shell"])
    else:
        try:
            rs = [ref.katz(d, m, sc.r200[0] + 6.0, 1e-2, 100, spec["imin"], spec["reduced"])]
            rs2 = rs
        except Skip as e:
            rs = rs2 = [e]
    a = shapes(obj.direct(sc, ctx, spec["center"]), [0], cfg, spec["kind"])
    b = shapes(obj.direct(sc, ctx, spec["center"], xyz=np.ascontiguousarray(x2), m=sc.m * mu, r200=sc.r200 * lam), [0], cfg, spec["kind"])
    n = 0
    for i in range(len(rs)):
        if isinstance(rs[i], Skip) or isinstance(rs2[i], Skip):
            continue
        what = "%s (%s): " % (t, spec["kind"])
        ca, cb = bool(a["is_conv"][0, i]), bool(b["is_conv"][0, i])
        check(ca == cb, what + "converged %s before and %s after" % (ca, cb))
        if not ca:
            continue
        close(b["q"][0, i], a["q"][0, i], rtol=3e-4, what=what + "q")
        close(b["s"][0, i], a["s"][0, i], rtol=3e-4, what=what + "s")
        close(b["d"][0, i], a["d"][0, i] * (lam if spec["kind"] == "local" else 1), rtol=1e-5, what=what + "d")
        for nme, gap in (("major", rs[i].gaps[0]), ("inter", min(rs[i].gaps)), ("minor", rs[i].gaps[1])):
            if gap > 1e-2:
                u, v = rot @ a[nme][0, i].astype(float), b[nme][0, i].astype(float)
                if abs(u @ v) < 1 - 1e-4:
                    raise Violation(what + "%s axis %s, expected +-%s" % (nme, v, u))
        n += a["s"][0, i] < 0.98
    return n > 0


def run_recover(spec, ctx):
    rng = np.random.default_rng(spec["seed"])
    n = spec["n"]
    q, s = max(spec["q"], spec["s"]), min(spec["q"], spec["s"])
    v = rng.normal(size=(n, 3))
    v /= np.linalg.norm(v, axis=1)[:, None]
    # Stratified radii: rho ~ r^-2
    r = (rng.permutation(n) + rng.uniform(size=n)) / n
    x = v * r[:, None] * np.array([1.0, q, s])
    rot = gen.rotation(rng)
    x = x @ rot.T + 5.0
    cls = gen.Scene()
    cls.xyz, cls.m, cls.cat, cls.r200, cls.L = x, np.full(n, 0.01), [list(range(n))], np.array([1.0]), spec["L"]
    o = obj.direct(cls, ctx, "com")
    g = shapes(o, [0], obj.katz_config([0.8], imin=10, reduced=spec["reduced"], tol=1e-2), "local")
    check(bool(g["is_conv"][0, 0]), "%d particles of an ellipsoid with axis ratios %g, %g: not converged" % (n, q, s))
    # About 1.5 times the largest deviations in thousands of such samples; the iteration amplifies noise where axes are alike.
    tol = (16 if q > 0.9 or s > 0.9 * q else 10) / np.sqrt(n)
    if abs(g["q"][0, 0] - q) > tol or abs(g["s"][0, 0] - s) > tol:
        raise Violation("ellipsoid with axis ratios q=%g, s=%g measured as q=%g, s=%g (%d particles)" % (q, s, g["q"][0, 0], g["s"][0, 0], n))
    if q < 0.75:
        c = abs(float(g["major"][0, 0] @ rot[:, 0]))
        check(c > 0.9, "major axis %s of an ellipsoid elongated along %s" % (g["major"][0, 0], rot[:, 0]))
    if s < 0.75 * q:
        c = abs(float(g["minor"][0, 0] @ rot[:, 2]))
        check(c > 0.9, "minor axis %s of an ellipsoid flattened along %s" % (g["minor"][0, 0], rot[:, 2]))
    return True


CENTER = st.sampled_from(["com", "mode"])
KIND = st.sampled_from(["local", "local", "global"])
B = {"rads": gen.rads_strategy(1, 5), "center": CENTER, "reduced": st.booleans(), "shell": st.booleans(), "kind": KIND}
SUBS = [
    Sub("invariants", st.fixed_dictionaries(dict(B, scene=gen.scene_strategy(nobj=(1, 4), nmin=1, nmax=200))), run_inv, quick=3000),
    Sub("transform", st.fixed_dictionaries(dict(
        B, scene=gen.scene_strategy(nobj=(1, 1), nmin=20, nmax=250, periodic=(False,), straddle=False), k=gen.SEED, imin=st.sampled_from([4, 10]),
        t=st.sampled_from(["rotate", "permute", "scale", "translate"]))), run_transform, quick=3000, weight=1.5),
    Sub("recovery", st.fixed_dictionaries({"seed": gen.SEED, "n": st.sampled_from([3000, 6000]), "q": gen.fl(0.35, 1.0), "s": gen.fl(0.35, 1.0),
                                           "L": st.sampled_from([0.0, 10.0]), "reduced": st.booleans()}), run_recover, quick=300),
]
