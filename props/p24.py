"""How the data are stored does not matter: type, memory layout, container."""
import numpy as np
from hypothesis import strategies as st

from props.p16 import unit_setup
from vlib import gen, obj
from vlib.core import Skip, Sub, Violation, call, check, same

RULE = "a case counts when at least one argument was restated in another representation and a non-empty result was compared bit for bit"


def strided(a):
    a = np.asarray(a)
    b = np.full(tuple(2 * n + 1 for n in a.shape), -7, dtype=a.dtype)
    v = b[tuple(slice(0, 2 * n, 2) for n in a.shape)]
    v[...] = a
    return v


def offset(a):
    """Not aligned to its item size."""
    a = np.ascontiguousarray(a)
    raw = np.zeros(a.nbytes + 1, np.uint8)[1:]
    v = raw.view(np.uint8)[: a.nbytes].view(a.dtype) if a.nbytes else a
    v = v.reshape(a.shape)
    v[...] = a
    return v


def readonly(a):
    a = np.array(a)
    a.flags.writeable = False
    return a


class Sub2(np.ndarray):
    pass


ARRAYS = {
    "float64": lambda a: np.array(a),
    "float32": lambda a: np.asarray(a).astype(np.float32),
    "big-endian": lambda a: np.asarray(a).astype(">f8"),
    "longdouble": lambda a: np.asarray(a).astype(np.longdouble),
    "Fortran order": lambda a: np.array(a, order="F"),
    "strided": strided,
    "reversed twice": lambda a: np.ascontiguousarray(np.asarray(a)[::-1])[::-1],
    "unaligned": offset,
    "read-only": readonly,
    "subclass": lambda a: np.array(a).view(Sub2),
    "float32 strided": lambda a: strided(np.asarray(a).astype(np.float32)),
}
# Containers accepted besides arrays (r200, radii).
LISTS = dict(ARRAYS, **{
    "list": lambda a: np.asarray(a).tolist(), "tuple": lambda a: tuple(np.asarray(a).tolist()), "numpy scalars": lambda a: list(np.asarray(a))})
RADII = {k: v for k, v in LISTS.items() if k != "read-only"}
INTS = {"list": list, "int64": lambda s: np.array(s, np.int64), "int32": lambda s: np.array(s, np.int32), "uint8": lambda s: np.array(s, np.uint8),
        "numpy scalars": lambda s: [np.int16(i) for i in s], "strided": lambda s: strided(np.array(s, np.int64)),
        "big-endian": lambda s: np.array(s, ">i4"), "float list": lambda s: [float(i) for i in s]}
CATS = {"lists": lambda c: [list(i) for i in c], "int32 arrays": lambda c: [np.array(i, np.int32) for i in c], "int64 arrays": lambda c: [np.array(i, np.int64) for i in c],
        "tuples": lambda c: [tuple(i) for i in c], "strided arrays": lambda c: [strided(np.array(i, np.int64)) for i in c],
        "mixed": lambda c: [np.array(i, np.uint32) if k % 2 else list(i) for k, i in enumerate(c)], "numpy scalars": lambda c: [[np.int64(j) for j in i] for i in c],
        "uint64 arrays": lambda c: [np.array(i, np.uint64) for i in c], "read-only arrays": lambda c: [readonly(np.array(i, np.int64)) for i in c]}
SCALARS = {"float": float, "float64": np.float64, "0-d": lambda v: np.array(v), "longdouble": np.longdouble}
COUNTS = {"int": int, "int64": np.int64, "int32": np.int32, "float": float, "uint8": np.uint8}


def results(o, sel, R, Rs, cfg, method, what):
    out = []
    for w in what:
        if w == "sph":
            out.append(("estDensProfs (shells)", call("estDensProfs", o.estDensProfs, R, sel, True, True)))
        elif w == "ell":
            out.append(("estDensProfs (ellipsoids)", call("estDensProfs", o.estDensProfs, R, sel, True, False, cfg)))
        elif w == "kernel":
            out.append(("estDensProfs (kernel)", call("estDensProfs", o.estDensProfs, R, sel, False, True)))
        elif w == "local":
            out.append(("getShapeCatLocal", call("getShapeCatLocal", o.getShapeCatLocal, sel, cfg)))
        elif w == "global":
            out.append(("getShapeCatGlobal", call("getShapeCatGlobal", o.getShapeCatGlobal, sel, cfg)))
        else:
            out.append(("getMassesCenters", call("getMassesCenters", o.getMassesCenters, sel)))
            x, m = o.getXYZMasses()
            out += [("getXYZMasses: positions", x), ("getXYZMasses: masses", m), ("getIdxCat", np.concatenate([np.ravel(np.asarray(i)) for i in o.getIdxCat()])),
                    ("getR200", o.getR200())]
    return out


def f32(a):
    """The nearest numbers that single precision holds as well."""
    return np.asarray(a, np.float32).astype(np.float64)


def run(spec, ctx):
    sc = gen.make_scene(spec["scene"])
    fl, fm, ol, om = unit_setup(spec)
    x, m, r200, L = f32(sc.xyz * fl), f32(sc.m * fm), f32(sc.r200 * fl), float(f32(sc.L * fl))
    if L > 0:
        x[x >= L] = 0.0
    R = f32(gen.make_rads(spec["rads"]))
    Rs = f32(np.sort(np.random.default_rng(spec["seed"]).uniform(0.2, 1.3, size=3)))
    if np.any(np.diff(R) <= 1e-6) or np.any(np.diff(Rs) <= 1e-6) or not np.all(np.isfinite(m)) or m.max() > 1e30:
        raise Skip
    n = len(sc.cat)
    sel = [int(i) for i in np.random.default_rng(spec["seed"] + 1).permutation(n)[: 1 + spec["seed"] % n]]
    base = {"x": (ARRAYS, x), "m": (ARRAYS, m), "cat": (CATS, sc.cat), "r200": (LISTS, r200), "L": (SCALARS, L), "sel": (INTS, sel), "R": (RADII, R), "Rs": (RADII, Rs),
            "tol": (SCALARS, 1e-2), "wall": (COUNTS, 60), "imin": (COUNTS, 5), "minp": (COUNTS, 1)}

    def go(how):
        a = {k: fs[how.get(k, next(iter(fs)))](v) for k, (fs, v) in base.items()}
        cfg = obj.katz_config(Rs, reduced=spec["reduced"], shell=spec["shell"])
        cfg.update(ROverR200=a["Rs"], IT_TOL=a["tol"], IT_WALL=a["wall"], IT_MIN=a["imin"])
        if n == 1 and how.get("one"):  # a single object may come as the plain list of its particles and a plain radius
            a["cat"], a["r200"] = list(sc.cat[0]), SCALARS[how["one"]](r200[0])
        o = obj.direct(sc, ctx, spec["center"], minp=a["minp"], xyz=a["x"], m=a["m"], cat=a["cat"], r200=a["r200"], L=a["L"])
        return results(o, a["sel"], a["R"], a["Rs"], cfg, None, spec["what"])
    rng = np.random.default_rng(spec["k"])
    keys = [k for k in base if rng.uniform() < spec["p"]]
    how = {k: sorted(base[k][0])[rng.integers(len(base[k][0]))] for k in keys}
    if n == 1 and spec["one"] and len(sc.cat[0]):
        how["one"] = sorted(SCALARS)[rng.integers(len(SCALARS))]
    if not how:
        raise Skip
    want = go({})
    got = go(how)
    for (name, a), (_, b) in zip(got, want):
        same(a, b, "%s of the data given as %s" % (name, how))
    return True


def run_fit(spec, ctx):
    """Density profiles and radii handed over for fitting."""
    from cosmic_profiles.dens_profs import dens_profs_tools as T
    sc = gen.make_scene(spec["scene"])
    fl, fm, ol, om = unit_setup(spec)
    n = len(sc.cat)
    o = obj.direct(sc, ctx, "com", xyz=sc.xyz * fl, m=sc.m * fm, r200=sc.r200 * fl, L=sc.L * fl)
    sel = [int(i) for i in np.random.default_rng(spec["seed"] + 1).permutation(n)[: 1 + spec["seed"] % n]]
    R = f32(np.logspace(-1.2, 0, 12))
    rho = 1e9 * om / ol**3 / 1e10
    c = np.random.default_rng(spec["seed"]).uniform(2, 9, size=len(sel))
    D = f32(np.array([rho / (k * R * (1 + k * R) ** 2) for k in c]) * np.exp(np.random.default_rng(spec["seed"]).normal(size=(len(sel), 12)) * 0.05))
    if not np.all(np.isfinite(D)) or D.min() < 1e-30:
        raise Skip
    method = {"profile": spec["profile"], "min_method": "Nelder-Mead"}
    rng = np.random.default_rng(spec["k"])
    H = {"D": sorted(LISTS)[rng.integers(len(LISTS))], "R": sorted(RADII)[rng.integers(len(RADII))], "sel": sorted(INTS)[rng.integers(len(INTS))]}
    if H["D"] in ("read-only", "tuple", "numpy scalars"):
        H["D"] = "list"
    for name in ("fitDensProfs", "estConcentrations"):
        want = call(name, getattr(o, name), D, R, method, sel)
        got = call(name, getattr(o, name), LISTS[H["D"]](D), RADII[H["R"]](R), method, INTS[H["sel"]](sel))
        same(got, want, "%s of the data given as %s" % (name, H))
    # The model functions, over arrays of any layout and single radii.
    pars = {"rho_s": 3.0, "alpha": 0.7, "beta": 3.1, "gamma": 0.9, "r_s": 0.3}
    f = {"nfw": T.getNFWProf, "hernquist": T.getHernquistProf, "einasto": T.getEinastoProf, "alpha_beta_gamma": T.getAlphaBetaGammaProf}[spec["profile"]]
    want = np.asarray(call(f.__name__, f, R, pars))
    k = sorted(ARRAYS)[rng.integers(len(ARRAYS))]
    got = np.asarray(call(f.__name__, f, ARRAYS[k](R), pars), float)
    check(got.shape == want.shape and np.allclose(got, want, rtol=1e-4 if "32" in k else 1e-12), "%s of radii given as %s: %s, expected %s" % (f.__name__, k, got, want))
    one = float(np.asarray(call(f.__name__, f, float(R[3]), pars)))
    check(abs(one - want[3]) <= 1e-12 * abs(want[3]), "%s of a single radius: %g, expected %g" % (f.__name__, one, want[3]))
    return True


def run_mock(spec, ctx):
    from cosmic_profiles import genHalo
    rng = np.random.default_rng(spec["seed"])
    a = f32(np.logspace(-1.5, 0.3, int(rng.integers(3, 12))))
    b, c = f32(a * rng.uniform(0.6, 1.0)), f32(a * rng.uniform(0.3, 0.6))
    pars = {"alpha": 0.9, "beta": 3.0, "gamma": 0.8, "r_s": 0.4}
    K = [k for k in sorted(ARRAYS) if k not in ("longdouble", "big-endian") and (k not in ("float32", "float32 strided"))]
    how = [K[i] for i in rng.integers(0, len(K), size=3)]
    sub = lambda d: {k: v for k, v in d.items() if k in {"nfw": ["r_s"], "hernquist": ["r_s"], "einasto": ["alpha", "r_s"]}.get(spec["profile"], list(pars))}  # noqa: E731
    out = []
    for h, conv in ((["float64"] * 3, float), (how, np.float64)):
        np.random.seed(spec["seed"] % 2**31)
        import random
        random.seed(spec["seed"])
        out.append(call("genHalo", genHalo, conv(1e12), spec["res"], {k: conv(v) for k, v in sub(pars).items()}, spec["profile"], *[ARRAYS[k](v) for k, v in zip(h, (a, b, c))]))
    for p, q, name in zip(out[1], out[0], ("x", "y", "z", "particle mass", "rho_s")):
        check(np.shape(p) == np.shape(q) and np.allclose(p, q, rtol=1e-9, atol=0), "genHalo with axes given as %s: %s differs" % (how, name))
    return len(out[0][0]) > 0


BASE = {"seed": st.integers(0, 10**6), "k": st.integers(0, 10**6), "h": st.sampled_from([0.6774, 1.0]), "inl": st.sampled_from(gen.LENGTHS), "inm": st.sampled_from(gen.MASSES),
        "outl": st.sampled_from(gen.LENGTHS), "outm": st.sampled_from(gen.MASSES)}
SUBS = [
    Sub("data", st.fixed_dictionaries(dict(BASE, scene=gen.scene_strategy((1, 4), 1, 60), rads=gen.rads_strategy(3, 8), center=st.sampled_from(["com", "mode"]),
                                           reduced=st.booleans(), shell=st.booleans(), p=st.sampled_from([0.1, 0.3, 1.0]), one=st.booleans(),
                                           what=st.lists(st.sampled_from(["sph", "ell", "kernel", "local", "global", "get"]), min_size=1, max_size=3, unique=True))),
        run, quick=1500, weight=2),
    Sub("fits", st.fixed_dictionaries(dict(BASE, scene=gen.scene_strategy((1, 4), 5, 40), profile=st.sampled_from(["nfw", "hernquist", "einasto", "alpha_beta_gamma"]))),
        run_fit, quick=300, weight=1),
    Sub("mock", st.fixed_dictionaries({"seed": st.integers(0, 10**6), "res": st.sampled_from([50, 300, 1000]), "profile": st.sampled_from(["nfw", "hernquist", "einasto", "alpha_beta_gamma"])}),
        run_mock, quick=150, weight=0.3),
]
