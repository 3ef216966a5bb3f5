"""Call histories: a result depends on the data and the arguments, not on what was called before."""
import numpy as np
from hypothesis import strategies as st

from props import p15
from vlib import gad, gen, obj, ref
from vlib.core import Skip, Sub, Violation, call, check, same

RULE = ("a case counts when a history of two or more calls was executed and at least one of its results was compared, bit by bit, "
        "with the result of the same call on an instance of its own")


def fill(a):
    """What a user may do to an array that was handed to him."""
    if isinstance(a, (tuple, list)):
        for x in a:
            fill(x)
        return
    if isinstance(a, np.ndarray) and a.flags.writeable and a.size:
        if a.dtype.names:
            for k in a.dtype.names:
                fill(a[k])
        else:
            a[...] = 0 if a.dtype.kind in "iub" else 1e3


def copy(a):
    if isinstance(a, (tuple, list)):
        return [copy(x) for x in a]
    return np.array(a)


def equal(a, b, what):
    if isinstance(a, (tuple, list)):
        check(len(a) == len(b), what + ": number of results")
        for i, (x, y) in enumerate(zip(a, b)):
            equal(x, y, "%s [%d]" % (what, i))
        return
    same(a, b, what)


def args(op, n):
    rng = np.random.default_rng(op["seed"])
    sel = [int(i) for i in rng.permutation(n)[: rng.integers(1, n + 1)]]
    R = np.sort(rng.uniform(0.1, 1.2, size=int(rng.integers(3, 7))))
    cfg = obj.katz_config(np.sort(rng.uniform(0.2, 1.2, size=int(rng.integers(3, 6)))), imin=int(rng.integers(3, 9)), reduced=bool(rng.integers(2)),
                          shell=bool(rng.integers(2)))
    return rng, sel, R, cfg


def do(o, op, n):
    """-> (result or None, arguments as passed, arguments as they were)"""
    rng, sel, R, cfg = args(op, n)
    if op["array"]:
        sel = np.array(sel)
    k = op["op"]
    before = (list(sel), R.copy(), {x: (np.array(v) if x == "ROverR200" else v) for x, v in cfg.items()})
    f = {
        "R200": lambda: o.getR200(),
        "idx": lambda: o.getIdxCat(),
        "xyz": lambda: o.getXYZMasses(),
        "masses": lambda: o.getMassesCenters(sel),
        "sph": lambda: o.estDensProfs(R, sel, direct_binning=True),
        "kernel": lambda: o.estDensProfs(R, sel, direct_binning=False),
        "ell": lambda: o.estDensProfs(R, sel, spherical=False, katz_config=cfg),
        "local": lambda: o.getShapeCatLocal(sel, cfg),
        "global": lambda: o.getShapeCatGlobal(sel, cfg),
        "vel": lambda: o.getVelXYZ(),
        "vlocal": lambda: o.getShapeCatVelLocal(sel, cfg),
        "vglobal": lambda: o.getShapeCatVelGlobal(sel, cfg),
        "info": lambda: o.getObjInfo() and None,
        "viz": lambda: o.vizLocalShapes(sel, cfg) and None,
        "vizg": lambda: o.vizGlobalShapes(sel, cfg) and None,
        "thist": lambda: o.plotLocalTHist(4, 0.5, sel, cfg) and None,
        "eps": lambda: o.plotGlobalEpsHist(4, sel) and None,
        "prof": lambda: o.plotShapeProfs(2, sel, cfg) and None,
    }
    rho = None
    if k in ("fit", "conc"):
        r = np.logspace(-1.5, 0, 10)
        p = [ref.models("nfw", {"rho_s": 10.0 ** rng.uniform(-1, 3), "r_s": rng.uniform(0.1, 0.4)}, r) * np.exp(rng.normal(size=10) * 0.05) for _ in sel]
        rho = np.array(p)
        keep = rho.copy()
        m = {"profile": "nfw", "min_method": "L-BFGS-B"}
        res = call(k, o.fitDensProfs if k == "fit" else o.estConcentrations, rho, r, m, sel)
        check(np.array_equal(rho, keep) and m == {"profile": "nfw", "min_method": "L-BFGS-B"}, "%s changed its arguments" % k)
    else:
        res = call(k, f[k])
    after = (list(sel), R, cfg)
    check(after[0] == before[0], "%s changed the selection it was given" % k)
    check(np.array_equal(after[1], before[1]), "%s changed the radii it was given" % k)
    check(set(cfg) == set(before[2]) and all(np.array_equal(cfg[x], before[2][x]) for x in cfg), "%s changed the configuration it was given" % k)
    return res, (sel, R, cfg)


def converged(o, op, n):
    """Ellipsoidal profiles are defined for objects with shapes at every radius."""
    rng, sel, R, cfg = args(op, n)
    s = o.getShapeCatLocal(sel, cfg)
    return all(np.all(np.isfinite(s[k])) for k in ("d", "q", "s"))


def history(spec, ctx, make, counts):
    """make(i, tag) -> a new instance of data set i; counts: objects in each."""
    insts = [make(i, "h%d" % i) for i in range(len(counts))]
    wants = {}
    outl, outm = "Mpc/h", "E+10Msun/h"
    hl = []
    done = 0
    for step, op in enumerate(spec["ops"]):
        i = op["inst"] % len(insts)
        n = counts[i]
        if op["op"] == "units":
            rng = np.random.default_rng(op["seed"])
            outl, outm = gen.LENGTHS[rng.integers(len(gen.LENGTHS))], gen.MASSES[rng.integers(len(gen.MASSES))]
            obj.units(outl=outl, outm=outm)
            hl.append("units")
            continue
        if op["op"] == "threads":
            ctx.threads(1 + op["seed"] % 8)
            hl.append("threads")
            continue
        if op["op"] == "bad":
            try:
                insts[i].getMassesCenters([0, n + 1])
            except ValueError:
                pass
            hl.append("refused call")
            continue
        key = (i, op["op"], op["seed"], op["array"], outl, outm)
        if key not in wants:
            # The same call on an instance that has seen nothing else.
            f = make(i, "f%d" % step)
            if op["op"] == "ell" and not converged(make(i, "c%d" % step), op, n):
                wants[key] = "skip"
            else:
                w, _ = do(f, op, n)
                wants[key] = None if w is None else copy(w)
        if isinstance(wants[key], str):
            continue
        res, a = do(insts[i], op, n)
        if wants[key] is not None:
            equal(res, wants[key], "%s after the calls %s, against the same call on a new instance" % (op["op"], hl))
            done += 1
        hl.append(op["op"])
        if op["scribble"]:
            fill(res)
            fill([x for x in a[:2] if isinstance(x, np.ndarray)])
            a[2]["IT_MIN"] = 1000
            hl[-1] += " (result overwritten)"
    return done > 0 and len(hl) > 1


def run_direct(spec, ctx):
    scs = [gen.make_scene(s) for s in spec["scenes"]]
    R0 = [(s.xyz.copy(), s.m.copy(), s.r200.copy(), [list(c) for c in s.cat]) for s in scs]

    def make(i, tag):
        # The constructor takes copies: see the inventory property.
        return obj.direct(scs[i], ctx, spec["center"], viz=ctx.dir("viz" + tag), catdir=ctx.dir("cat" + tag))
    r = history(spec, ctx, make, [len(s.cat) for s in scs])
    for s, k in zip(scs, R0):
        check(np.array_equal(s.xyz, k[0]) and np.array_equal(s.m, k[1]) and np.array_equal(s.r200, k[2]) and s.cat == k[3], "the user's particle data changed")
    return r


def run_gadget(spec, ctx):
    Us = [gad.make_universe(u) for u in spec["us"]]
    Us = [U for U in Us if gad.centrals(U, 1, 6)]
    if not Us:
        raise Skip
    counts = [len(gad.centrals(U, 1, 6)) for U in Us]
    files = []
    for i, U in enumerate(Us):
        V = gad.convert(U, 1, 1)
        files.append((gad.write_hdf5(V, ctx.dir("snapdir%d" % i), nfiles=1, dt=np.float64, seed=1), gad.write_groups(V, ctx.dir("groups%d" % i), nfiles=1, seed=1, dt=np.float64)))
    from cosmic_profiles import DensShapeProfsGadget

    def make(i, tag):
        from cosmic_profiles.gadget import read_fof, gen_catalogues
        if tag[0] == "f":
            # As in a new session: nothing cached.
            for f in (read_fof.getFoFSHData, gen_catalogues.calcObjCat):
                c = getattr(f, "inner", None)
                if c is not None and hasattr(c, "cache_clear"):
                    c.cache_clear()
        return call("DensShapeProfsGadget()", DensShapeProfsGadget, files[i][0], files[i][1], "dm", "024", ctx.dir("viz" + tag), ctx.dir("cat" + tag),
                    RVIR_OR_R200=spec["rdef"], MIN_NUMBER_PTCS=6, CENTER=spec["center"])
    return history(spec, ctx, make, counts)


def ops(names):
    one = st.fixed_dictionaries({"op": st.sampled_from(names), "inst": st.integers(0, 1), "seed": st.integers(0, 7), "array": st.booleans(), "scribble": st.booleans()})
    return st.lists(one, min_size=2, max_size=10)


CALC = ["R200", "idx", "xyz", "masses", "sph", "kernel", "ell", "local", "global", "fit", "conc"]
MISC = ["units", "threads", "bad", "info"]
SUBS = [
    Sub("direct", st.fixed_dictionaries({"scenes": st.lists(gen.scene_strategy((1, 4), 1, 60), min_size=1, max_size=2), "center": st.sampled_from(["com", "mode"]),
                                         "ops": ops(CALC * 3 + MISC * 2)}), run_direct, quick=1600, weight=1.2),
    Sub("plots", st.fixed_dictionaries({"scenes": st.lists(gen.scene_strategy((1, 3), 8, 60, straddle=False), min_size=1, max_size=1), "center": st.just("com"),
                                        "ops": ops(CALC + ["viz", "vizg", "thist", "eps", "prof", "units"])}), run_direct, quick=40, thorough=1500, weight=1),
    Sub("gadget", st.fixed_dictionaries({"us": st.lists(gad.universe_strategy((1, 4), 50), min_size=1, max_size=2), "center": st.sampled_from(["com", "mode"]),
                                         "rdef": st.sampled_from(["Rvir", "R200"]),
                                         "ops": ops(CALC * 3 + MISC * 2 + ["vel", "vlocal", "vglobal"] * 3)}), run_gadget, quick=500, weight=1),
]
