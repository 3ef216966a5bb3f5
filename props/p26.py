"""Degenerate and extreme data: every call still ends, with a proper answer."""
import numpy as np
from hypothesis import strategies as st

from props.p14 import shapes
from props.p16 import unit_setup
from vlib import gen, obj, ref
from vlib.core import Skip, Sub, Violation, call, check, close

RULE = "a case counts when every call of the case returned and at least one object has two or more particles"

KINDS = ["point", "pair", "line", "plane", "lattice", "duplicates", "outlier", "cube", "shell", "single", "pair-heavy", "needle"]


def body(kind, n, rng, aligned):
    """n points within the unit ball around 0, with ties and missing dimensions."""
    if kind == "single":
        return np.zeros((1, 3))
    if kind == "point":
        x = np.zeros((n, 3))
    elif kind in ("pair", "pair-heavy"):
        x = np.zeros((n, 3))
        x[:, 0] = np.where(rng.uniform(size=n) < (0.5 if kind == "pair" else 0.1), 0.5, -0.5)
    elif kind == "line":
        x = np.zeros((n, 3))
        x[:, 0] = rng.uniform(-1, 1, size=n)
    elif kind == "plane":
        x = rng.uniform(-0.7, 0.7, size=(n, 3))
        x[:, 2] = 0
    elif kind == "needle":
        x = rng.uniform(-0.5, 0.5, size=(n, 3)) * np.array([1, 1e-4, 1e-7])
    elif kind == "lattice":
        x = rng.integers(-3, 4, size=(n, 3)) / 6.0
    elif kind == "duplicates":
        x = rng.normal(size=(max(n // 4, 1), 3)) * 0.2
        x = x[rng.integers(0, len(x), size=n)]
    elif kind == "outlier":
        x = rng.normal(size=(n, 3)) * 1e-3
        x[0] = [0.9, 0, 0]
    elif kind == "cube":
        x = np.array([[i, j, k] for i in (-1, 1) for j in (-1, 1) for k in (-1, 1)]) * 0.4
        x = x[np.arange(n) % 8]
    else:
        x = rng.normal(size=(n, 3))
        x /= np.linalg.norm(x, axis=1)[:, None]
        x *= 0.8
    if not aligned:
        x = x @ gen.rotation(rng).T
    return np.clip(x, -1, 1)


def make(spec):
    rng = np.random.default_rng(spec["seed"])
    L = spec["L"]
    box = L if L > 0 else 10.0
    xs, cat, r200, start = [], [], [], 0
    for o in spec["objs"]:
        x = body(o["kind"], o["n"], rng, o["aligned"])
        size = o["size"] * box
        c = np.array(o["pos"]) * box
        x = x * size + c
        xs.append(x)
        cat.append([int(i) for i in np.arange(start, start + len(x))])
        start += len(x)
        r200.append(o["r200"] * size)
    x = np.concatenate(xs)
    m = np.ones(len(x)) if spec["mass"] == "equal" else np.exp(rng.normal(size=len(x)) * 3)
    if L > 0:
        x = np.mod(x, L)
        x[x >= L] = 0.0
    return x, m, cat, np.array(r200), L


def run(spec, ctx):
    x, m, cat, r200, L = make(spec)
    fl, fm, ol, om = unit_setup(spec)
    o = obj.direct(None, ctx, spec["center"], xyz=x * fl, m=m * fm, cat=cat, r200=r200 * fl, L=L * fl)
    sel = list(range(len(cat)))
    what = "objects %s, centre %s" % ([b["kind"] for b in spec["objs"]], spec["center"])
    mc = call("getMassesCenters of %s" % what, o.getMassesCenters, sel)
    R = np.array(sorted(spec["R"]))
    D = {}
    cfg = obj.katz_config(np.array(sorted(spec["Rs"])), imin=spec["imin"], reduced=spec["reduced"], shell=spec["shell"])
    for name, a in (("shells", (True, True)), ("kernel", (False, True)), ("ellipsoids", (True, False, cfg))):
        D[name] = call("estDensProfs (%s) of %s" % (name, what), o.estDensProfs, R, sel, *a)
    for k, c in enumerate(cat):
        mass = m[c].sum()
        close(mc["mass"][k], mass * om, rtol=1e-5, what="mass of an object that is a %s" % spec["objs"][k]["kind"])
        xu = ref.unwrap(x[c], L)
        cen = np.asarray(mc["centre"][k], float) / ol
        check(np.all(np.isfinite(cen)), "centre of a %s: %s" % (spec["objs"][k]["kind"], cen))
        tol = 2e-5 * max(L, np.abs(xu).max(), 1e-30)
        if L > 0:
            check(np.all(cen >= -tol) and np.all(cen <= L + tol), "centre %s outside the box of size %g" % (cen, L))
            d = cen - xu[0]
            cen = xu[0] + d - L * np.round(d / L)
        compact = not (L > 0) or ref.compact(xu, L)
        if compact:
            check(np.all(cen >= xu.min(axis=0) - tol) and np.all(cen <= xu.max(axis=0) + tol), "centre %s of a %s is outside the extent %s..%s of its particles" % (
                cen, spec["objs"][k]["kind"], xu.min(axis=0), xu.max(axis=0)))
        for name in D:
            row = D[name][k]
            if name == "ellipsoids":
                # Ellipsoids that differ from radius to radius need not be nested, so nothing is said about the values (P08 does for regular objects).
                check(row.shape == R.shape, "density (%s): shape %s for %d radii" % (name, row.shape, len(R)))
            else:
                check(np.all(row >= 0) and not np.any(np.isnan(row)), "density (%s) of a %s: %s" % (name, spec["objs"][k]["kind"], row))
        e = ref.sph_edges(R) * r200[k] * ol
        t = float((D["shells"][k] * 4 / 3 * np.pi * np.diff(e ** 3)).sum())
        if compact:
            dist = np.linalg.norm(xu - cen, axis=1)
            out = R[-1] * r200[k]
            lo = m[c][(dist < out * (1 - 1e-5) - tol) & (dist > 2e-7 * r200[k] + tol)].sum() * om
            hi = m[c][dist < out * (1 + 1e-5) + tol].sum() * om
            check(lo * (1 - 1e-4) <= t <= hi * (1 + 1e-4), "densities times volumes of a %s add up to %g, the mass inside is %g..%g" % (spec["objs"][k]["kind"], t, lo, hi))
    for kind in ("local", "global"):
        g = shapes(o, sel, cfg, kind)
        cv = g["is_conv"].astype(bool)
        for n in ("q", "s"):
            check(np.array_equal(np.isnan(g[n]), ~cv), "%s (%s) of %s is NaN exactly where unconverged: %s vs %s" % (n, kind, what, g[n], cv))
        q, s = g["q"][cv], g["s"][cv]
        check(np.all(s >= 0) and np.all(s <= q * (1 + 1e-6)) and np.all(q <= 1 + 1e-6), "axis ratios (%s) of %s out of order: q=%s s=%s" % (kind, what, q, s))
        if cv.any():
            ax = np.stack([g[n][cv] for n in ("minor", "inter", "major")], axis=1).astype(float)
            gram = np.einsum("nik,njk->nij", ax, ax)
            check(np.abs(gram - np.eye(3)).max() < 1e-4, "axes (%s) of %s are not orthonormal: %s" % (kind, what, gram.tolist()))
    return max(len(c) for c in cat) > 1


OBJ = st.fixed_dictionaries({"kind": st.sampled_from(KINDS), "n": gen.often(st.integers(1, 60), st.integers(200, 900), 11), "aligned": st.booleans(),
                             "size": st.sampled_from([1e-4, 0.01, 0.1, 0.2]), "r200": st.sampled_from([1e-3, 0.5, 1.0, 1.0, 2.0, 20.0]),
                             "pos": st.lists(st.one_of(st.sampled_from([0.0, 0.5, 0.25]), gen.fl(0, 0.999).map(lambda v: round(v, 9))), min_size=3, max_size=3)})
SUBS = [
    Sub("degenerate", st.fixed_dictionaries({
        "seed": gen.SEED, "L": st.sampled_from([0.0, 1.0, 64.0]), "objs": st.lists(OBJ, min_size=1, max_size=4), "mass": st.sampled_from(["equal", "wide"]),
        "center": st.sampled_from(["com", "mode"]), "R": st.lists(st.sampled_from([1e-3, 0.01, 0.1, 0.3, 0.5, 0.7, 1.0, 1.5, 4.0, 50.0]), min_size=3, max_size=8, unique=True),
        "Rs": st.lists(st.sampled_from([1e-3, 0.05, 0.2, 0.5, 0.8, 1.0, 2.0, 50.0]), min_size=3, max_size=6, unique=True), "imin": st.sampled_from([1, 4, 10]),
        "reduced": st.booleans(), "shell": st.booleans(), "h": st.sampled_from([0.6774, 1.0]), "inl": st.sampled_from(["Mpc/h", "kpc/h", "kpc"]),
        "inm": st.sampled_from(["E+10Msun/h", "Msun"]), "outl": st.sampled_from(["Mpc/h", "kpc"]), "outm": st.sampled_from(["E+10Msun/h", "Msun"])}), run, quick=3000),
]
