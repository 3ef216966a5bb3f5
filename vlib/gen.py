"""Structured generators.  A case is a JSON-able dictionary; the particle data follow from it deterministically."""
import numpy as np
from hypothesis import strategies as st

SEED = st.integers(0, 2**31 - 1)


def fl(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(lambda v: float("%.6g" % v))


def often(common, rare, weight=11):
    """`common` most of the time, `rare` about once in weight + 1 draws."""
    return st.one_of(*([common.map(lambda v, _i=i: v) for i in range(weight)] + [rare]))


def obj_strategy(nmin=1, nmax=120, rmax=0.24, straddle=True, profs=("gauss", "plaw", "uniform", "shells"), qmin=0.25):
    coord = [fl(0.3, 0.7)]
    if straddle:
        coord += [fl(0.0, 0.08), fl(0.92, 0.999), st.just(0.0)]
    c = st.one_of(*coord)
    return st.fixed_dictionaries({
        "n": st.integers(nmin, nmax) if nmax < 40 else often(st.integers(nmin, nmax), st.integers(nmax, max(8 * nmax, 1200)), 15),
        "prof": st.sampled_from(list(profs)),
        "r": fl(0.02, rmax),
        "q": fl(qmin, 1.0),
        "s": fl(qmin, 1.0),
        "aligned": st.booleans() if qmin > 0 else st.just(False),
        "pos": st.tuples(c, c, c).map(list),
        "r200": fl(0.3, 1.2),
    })


def scene_strategy(nobj=(1, 4), nmin=1, nmax=120, periodic=(True, False), rmax=0.24, straddle=True,
                   profs=("gauss", "plaw", "uniform", "shells"), masses=("equal", "uniform", "lognormal"), qmin=0.25, L=None):
    return st.fixed_dictionaries({
        "seed": SEED,
        "L": (st.sampled_from([0.5, 10.0, 75.0, 100.0] + ([0.0] if False in periodic else [])) if True in periodic else st.just(0.0))
        if L is None else L,
        "objs": st.lists(obj_strategy(nmin, nmax, rmax, straddle, profs, qmin), min_size=nobj[0], max_size=nobj[1]) if nobj[1] < 3 else
        often(st.lists(obj_strategy(nmin, nmax, rmax, straddle, profs, qmin), min_size=nobj[0], max_size=nobj[1]),
              st.lists(obj_strategy(nmin, min(nmax, max(nmin, 30)), rmax, straddle, profs, qmin), min_size=nobj[1], max_size=3 * nobj[1] + 8), 19),
        "mass": st.sampled_from(list(masses)),
        "mscale": st.sampled_from([1e-4, 0.05, 1.0, 30.0]),
        "bg": st.integers(0, 20),
        "shuffle": st.booleans(),
        "share": st.booleans(),
    })


def rotation(rng):
    a = rng.normal(size=(3, 3))
    q, r = np.linalg.qr(a)
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] = -q[:, 0]
    return q


def cloud(o, rng, size):
    """n points within `size` of the origin, ellipsoidal."""
    n = o["n"]
    v = rng.normal(size=(n, 3))
    v /= np.linalg.norm(v, axis=1)[:, None] + 1e-300
    u = rng.uniform(size=n)
    if o["prof"] == "gauss":
        r = np.minimum(np.abs(rng.normal(size=n)) * 0.35, 0.999) + 1e-3 * u
    elif o["prof"] == "plaw":
        r = u ** 1.5
    elif o["prof"] == "shells":
        r = (1 + rng.integers(0, 5, size=n)) / 5.0 * (0.9 + 0.1 * u)
    else:
        r = u ** (1 / 3)
    x = v * (np.minimum(r, 1.0) * size)[:, None]
    x[:, 1] *= max(o["q"], o["s"])
    x[:, 2] *= min(o["q"], o["s"])
    rot = rotation(rng)
    if not o["aligned"]:
        x = x @ rot.T
    return x


class Scene:
    """xyz, m: all particles (length unit of the case); cat: list of index lists; r200; L."""


def make_scene(spec):
    rng = np.random.default_rng(spec["seed"])
    L = spec["L"]
    box = L if L > 0 else 10.0
    xs, ms, owner = [], [], []
    s = Scene()
    s.L = L
    s.r200, s.size, s.center0 = [], [], []
    for k, o in enumerate(spec["objs"]):
        size = o["r"] * box
        x = cloud(o, rng, size) + np.array(o["pos"]) * box
        xs.append(x)
        owner += [k] * o["n"]
        s.r200.append(o["r200"] * size)
        s.size.append(size)
        s.center0.append(np.array(o["pos"]) * box)
    nb = spec["bg"]
    xs.append(rng.uniform(size=(nb, 3)) * box)
    owner += [-1] * nb
    x = np.concatenate(xs)
    n = len(x)
    if spec["mass"] == "equal":
        m = np.full(n, 1.0)
    elif spec["mass"] == "uniform":
        m = rng.uniform(0.2, 3.0, size=n)
    else:
        m = np.exp(rng.normal(size=n))
    m = m * spec["mscale"]
    owner = np.array(owner)
    perm = rng.permutation(n) if spec["shuffle"] else np.arange(n)
    x, m, owner = x[perm], m[perm], owner[perm]
    if L > 0:
        x = np.mod(x, L)
        x[x >= L] = 0.0
    s.xyz, s.m = np.ascontiguousarray(x), np.ascontiguousarray(m)
    s.cat = []
    for k in range(len(spec["objs"])):
        idx = np.where(owner == k)[0]
        if spec["shuffle"]:
            idx = rng.permutation(idx)
        s.cat.append([int(i) for i in idx])
    s.r200 = np.array(s.r200, dtype=np.float64)
    s.n = [len(c) for c in s.cat]
    return s


def rads_strategy(nmin=1, nmax=8):
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["log", "lin", "random"]),
        "n": st.integers(nmin, nmax) if nmax < 4 else often(st.integers(nmin, nmax), st.integers(nmax, 40), 14),
        "lo": fl(0.02, 0.4),
        "hi": fl(0.5, 1.6),
        "seed": st.integers(0, 10**6),
    })


def make_rads(r):
    if r["kind"] == "log":
        a = np.logspace(np.log10(r["lo"]), np.log10(r["hi"]), r["n"])
    elif r["kind"] == "lin":
        a = np.linspace(r["lo"], r["hi"], r["n"])
    else:
        a = np.sort(np.random.default_rng(r["seed"]).uniform(r["lo"], r["hi"], size=r["n"]))
    return np.float64(a)


LENGTHS = ["kpc", "Mpc", "Gpc", "kpc/h", "Mpc/h", "Gpc/h", "pc", "pc/h"]
MASSES = ["Msun", "E+10Msun", "Msun/h", "E+10Msun/h"]
KPC = 3.085678e21
MSUN = 1.989e33


def length_cm(name, h):
    f = {"kpc": KPC, "Mpc": KPC * 1e3, "Gpc": KPC * 1e6, "pc": KPC / 1e3}[name.split("/")[0]]
    return f / h if name.endswith("/h") else f


def mass_g(name, h):
    f = {"Msun": MSUN, "E+10Msun": MSUN * 1e10}[name.split("/")[0]]
    return f / h if name.endswith("/h") else f
