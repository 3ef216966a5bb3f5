"""Global shapes (all particles of an object)."""
import numpy as np
from hypothesis import strategies as st

from props.p12 import offsets
from vlib import gen, obj, ref
from vlib.core import Skip, Sub, Violation, call, check, close

RULE = "a case counts when at least one object has an unambiguous converged reference solution with s < 0.98"


def compare(got, j, r, f, what, rt=2e-4, d=None):
    conv = bool(np.ravel(got["is_conv"][j])[0])
    if conv != r.conv:
        raise Violation("%s: is_conv is %s, the reference iteration %s" % (what, conv, "converges" if r.conv else "does not"))
    if not r.conv:
        for n in ("q", "s", "minor", "inter", "major"):
            check(np.all(np.isnan(got[n][j])), "%s: unconverged but %s = %s" % (what, n, got[n][j]))
        return False
    close(np.ravel(got["q"][j])[0], r.q, rtol=rt, what=what + ": q")
    close(np.ravel(got["s"][j])[0], r.s, rtol=rt, what=what + ": s")
    if d is not None:
        close(np.ravel(got["d"][j])[0], d * f, rtol=1e-5, what=what + ": d")
    for n, a, gap in (("major", 2, r.gaps[0]), ("inter", 1, min(r.gaps)), ("minor", 0, r.gaps[1])):
        v = np.asarray(got[n][j], dtype=float).ravel()
        check(abs(np.linalg.norm(v) - 1) < 1e-5, "%s: %s axis has length %g" % (what, n, np.linalg.norm(v)))
        if gap > 1e-2 and abs(float(v @ r.axes[a])) < 1 - 1e-4:
            raise Violation("%s: %s axis is %s, expected +-%s" % (what, n, v, r.axes[a]))
    return True


def run_ref(spec, ctx):
    sc = gen.make_scene(spec["scene"])
    lin, min_, lout, mout = obj.units("Mpc/h", "E+10Msun/h", spec["outl"], spec["outm"])
    f = gen.length_cm("Mpc/h", 0.6774) / lout
    ctx.threads(spec["threads"])
    r200 = sc.r200.copy()
    o = obj.direct(sc, ctx, spec["center"], r200=r200)
    sel = list(range(len(sc.cat)))
    if spec["rev"]:
        sel = sel[::-1]
    tol, wall, imin = spec["tol"], spec["wall"], spec["imin"]
    cfg = obj.katz_config([0.5, 1.0], tol=tol, wall=wall, imin=imin, reduced=spec["reduced"], shell=spec["shell"])
    got = call("getShapeCatGlobal", o.getShapeCatGlobal, sel, cfg)
    check(len(got) == len(sel), "getShapeCatGlobal: %d rows for %d objects" % (len(got), len(sel)))
    nontriv = done = False
    for j, k in enumerate(sel):
        try:
            d, m = offsets(sc, k, spec["center"])
            if ref.extent(d) < 1e-6 * max(np.abs(sc.xyz).max(), sc.L):
                raise Skip
            r = ref.katz(d, m, sc.r200[k] + 6.0, tol, wall, imin, spec["reduced"])
        except Skip:
            continue
        done = True
        c = compare(got, j, r, f, "object %d (%d particles)" % (k, len(m)), d=sc.r200[k] + 6.0)
        nontriv |= c and r.s < 0.98
    if not done:
        raise Skip
    return nontriv


def run_all(spec, ctx):
    """Non-reduced global shape of an object far smaller than the aperture: the plain second-moment tensor decides."""
    sc = gen.make_scene(spec["scene"])
    o = obj.direct(sc, ctx, "com")
    got = call("getShapeCatGlobal", o.getShapeCatGlobal, [0], obj.katz_config([1.0], imin=4))
    xu = ref.unwrap(sc.xyz[sc.cat[0]], sc.L)
    m = sc.m[sc.cat[0]]
    x = xu - ref.com(xu, m)
    w = np.linalg.eigvalsh(np.einsum("i,ij,ik->jk", m, x, x) / m.sum())
    if w[0] < 1e-6 * w[2]:
        raise Skip
    # Every particle must stay inside the ellipsoid for any principal frame.
    s = np.sqrt(w[0] / w[2])
    if np.linalg.norm(x, axis=1).max() / s > 5.9 or abs(s - 1) < 2e-2:
        raise Skip
    check(bool(np.ravel(got["is_conv"][0])[0]), "global shape of a compact object with %d particles did not converge" % len(m))
    close(np.ravel(got["q"][0])[0], np.sqrt(w[1] / w[2]), rtol=1e-4, what="q against the second moments of all particles")
    close(np.ravel(got["s"][0])[0], s, rtol=1e-4, what="s against the second moments of all particles")
    return True


CENTER = st.sampled_from(["com", "mode"])
SUBS = [
    Sub("reference", st.fixed_dictionaries({
        "scene": gen.scene_strategy(nobj=(1, 4), nmin=4, nmax=250), "center": CENTER, "tol": st.sampled_from([1e-2, 1e-1, 1e-3]),
        "wall": st.sampled_from([100, 100, 2, 4]), "imin": st.sampled_from([4, 10, 60]), "reduced": st.booleans(), "shell": st.booleans(), "rev": st.booleans(),
        "threads": st.sampled_from([1, 2, 3]), "outl": st.sampled_from(gen.LENGTHS), "outm": st.sampled_from(gen.MASSES)}),
        run_ref, quick=4000, weight=2),
    Sub("second-moments", st.fixed_dictionaries({"scene": gen.scene_strategy(nobj=(1, 1), nmin=5, nmax=150, L=st.sampled_from([0.0, 0.5, 2.0]), rmax=0.2)}),
        run_all, quick=2000),
]
