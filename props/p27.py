"""Settings: those that make no sense are refused without a trace, those left out take their documented defaults."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import gad, gen, obj
from vlib.core import Skip, Sub, Violation, call, check, close, describe, same

RULE = ("a case counts when a setting that makes no sense was handed to at least one public call and the object was used afterwards "
        "(defaults: when at least one object was analysed both ways; accepted: when a fit was made)")

R3 = [0.2, 0.5, 0.9]
DOCUMENTED = {"ROverR200": np.logspace(-1.5, 0, 70), "IT_TOL": 1e-2, "IT_WALL": 100, "IT_MIN": 10, "REDUCED": False, "SHELL_BASED": False}
FIELDS = {"nfw": ["rho_s", "r_s"], "hernquist": ["rho_s", "r_s"], "einasto": ["rho_s", "alpha", "r_s"],
          "alpha_beta_gamma": ["rho_s", "alpha", "beta", "gamma", "r_s"]}
FOREIGN = {"nfw": ["alpha", "beta", "gamma", "c", "rs"], "hernquist": ["alpha", "beta", "gamma", "a"], "einasto": ["beta", "gamma", "n"],
           "alpha_beta_gamma": ["delta", "rs", "epsilon"]}
MINIMISERS = ["Nelder-Mead", "L-BFGS-B", "TNC", "SLSQP", "Powell", "trust-constr"]


def refuse(what, f, *a):
    """Any error will do, but it has to be one, and not the end of the program."""
    try:
        r = f(*a)
    except Exception:
        return
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        raise Violation("%s ended with %s instead of an error" % (what, describe(e)))
    raise Violation("%s was accepted (returned %s)" % (what, repr(r)[:200]))


def left(ctx):
    return [x for n in ("viz", "cat") for x in os.listdir(ctx.dir(n))]


def config_methods(o, sel, velocities):
    """Every public call that takes a shape configuration."""
    R = np.array(R3)
    out = [
        ("getShapeCatLocal", lambda c: o.getShapeCatLocal(sel, c)),
        ("getShapeCatGlobal", lambda c: o.getShapeCatGlobal(sel, c)),
        ("estDensProfs (ellipsoidal)", lambda c: o.estDensProfs(R, sel, spherical=False, katz_config=c)),
        ("estDensProfs (spherical)", lambda c: o.estDensProfs(R, sel, katz_config=c)),
        ("estDensProfs (kernel)", lambda c: o.estDensProfs(R, sel, direct_binning=False, katz_config=c)),
        ("vizLocalShapes", lambda c: o.vizLocalShapes(sel, c)),
        ("vizGlobalShapes", lambda c: o.vizGlobalShapes(sel, c)),
        ("plotLocalTHist", lambda c: o.plotLocalTHist(4, 0.5, sel, c)),
        ("plotGlobalTHist", lambda c: o.plotGlobalTHist(4, sel, c)),
        ("plotShapeProfs", lambda c: o.plotShapeProfs(2, sel, c)),
        ("dumpShapeCatLocal", lambda c: o.dumpShapeCatLocal(sel, c)),
        ("dumpShapeCatGlobal", lambda c: o.dumpShapeCatGlobal(sel, c)),
    ]
    if velocities:
        out += [
            ("getShapeCatVelLocal", lambda c: o.getShapeCatVelLocal(sel, c)),
            ("getShapeCatVelGlobal", lambda c: o.getShapeCatVelGlobal(sel, c)),
            ("dumpShapeVelCatLocal", lambda c: o.dumpShapeVelCatLocal(sel, c)),
            ("dumpShapeVelCatGlobal", lambda c: o.dumpShapeVelCatGlobal(sel, c)),
        ]
    return out


NOT_BOOL = [0, 1, 0.0, 1.0, "True", "no", "", None, [], [True]]
BROKEN = ["missing", "missing", "missing", "bool", "bool", "bool", "scalar", "words", "whole"]


def broken_config(spec):
    """-> (description, configuration)"""
    k = spec["k"]
    cfg = obj.katz_config(R3)
    kind = spec["broken"]
    if kind == "missing":
        key = sorted(cfg)[k % 6]
        del cfg[key]
        return "a configuration without %s" % key, cfg
    if kind == "bool":
        key = ("REDUCED", "SHELL_BASED")[k % 2]
        cfg[key] = NOT_BOOL[k // 2 % len(NOT_BOOL)]
        return "%s = %r" % (key, cfg[key]), cfg
    if kind == "scalar":
        cfg["ROverR200"] = [0.5, 1, np.float64(0.3), np.int64(1), None][k % 5]
        return "ROverR200 = %r" % (cfg["ROverR200"],), cfg
    if kind == "words":
        key = ("IT_TOL", "IT_WALL", "IT_MIN", "ROverR200")[k % 4]
        cfg[key] = "few" if key != "ROverR200" else ["near", "far"]
        return "%s = %r" % (key, cfg[key]), cfg
    bad = [None, 5, "default", [], list(cfg.values()), {}, tuple(cfg.items())][k % 7]
    return "%r as configuration" % (bad,), bad


def gadget(spec, ctx, minp=1, **kw):
    """A Gadget object of a synthetic universe in kpc/h."""
    from cosmic_profiles import DensShapeProfsGadget
    obj.units("kpc/h", "E+10Msun/h")
    U = gad.make_universe(spec["u"])
    t = gad.TYPES[spec["type"]]
    want = gad.centrals(U, t, minp)
    if not want:
        raise Skip
    V = gad.convert(U, 1000.0, 1.0)
    p = gad.write_hdf5(V, ctx.dir("snapdir"), dt=np.float64, seed=spec["seed"] % 1000)
    g = gad.write_groups(V, ctx.dir("groups"), seed=spec["seed"] % 1000, dt=np.float64)

    def make(**k):
        a = dict(SNAP_DEST=p, GROUP_DEST=g, OBJ_TYPE=spec["type"], SNAP="024", VIZ_DEST=ctx.dir("viz"), CAT_DEST=ctx.dir("cat"), RVIR_OR_R200="R200", MIN_NUMBER_PTCS=minp, CENTER=spec["center"])
        a.update(kw)
        a.update(k)
        for d in [x for x in a if a[x] == "<default>"]:
            del a[d]
        return DensShapeProfsGadget(**a)
    return U, want, make


def run_config(spec, ctx):
    """Every call refuses a broken shape configuration, writes nothing, and answers the same afterwards."""
    if spec["gadget"]:
        U, want, make = gadget(spec, ctx)
        o, n = call("DensShapeProfsGadget()", make), len(want)
    else:
        sc = gen.make_scene(spec["scene"])
        o, n = obj.direct(sc, ctx, spec["center"]), len(sc.cat)
    sel = list(range(n))[:: -1 if spec["seed"] % 2 else 1]
    what, bad = broken_config(spec)
    before = call("getMassesCenters", o.getMassesCenters, sel)
    good = obj.katz_config(R3)
    shapes = call("getShapeCatGlobal", o.getShapeCatGlobal, sel, good)
    ms = config_methods(o, sel, spec["gadget"])
    for i, (name, f) in enumerate(ms):
        if (i + spec["which"]) % 3 == 0:
            refuse("%s with %s" % (name, what), f, bad)
    check(not left(ctx), lambda: "files left by calls with %s: %s" % (what, left(ctx)))
    same(before, call("getMassesCenters after refused settings", o.getMassesCenters, sel), "masses and centres after %s was refused" % what)
    same(shapes, call("getShapeCatGlobal after refused settings", o.getShapeCatGlobal, sel, good), "shapes after %s was refused" % what)
    return True


def broken_method(spec):
    k = spec["k"]
    p = spec["profile"]
    kind = spec["bad"]
    if kind == "type":
        return [p, None, [p], [("profile", p)], 5, (("profile", p),)][k % 6]
    if kind == "noname":
        m = {f: 1.0 for f in FIELDS[p][1:]}
        return [m, {}, {"min_method": "Powell"}, dict(m, Profile=p)][k % 4]
    if kind == "name":
        return {"profile": ["NFW", "king", "", None, 5, "Einasto", "alpha-beta-gamma", "nfw ", "burkert", "abg"][k % 10]}
    if kind == "field":
        f = FOREIGN[p][k % len(FOREIGN[p])]
        m = {"profile": p, f: 1.0}
        if k % 2:
            m["r_s"] = 0.2
        if k // 2 % 2:
            m["min_method"] = MINIMISERS[k % 6]
        return m
    return {"profile": p, "min_method": ["BFGS", "CG", "powell", "COBYLA", None, "", "Newton-CG", "nelder-mead", "L-BFGS", 3][k % 10]}


def run_method(spec, ctx):
    """Fits refuse methods they do not know and profiles that do not belong to the objects."""
    rng = np.random.default_rng(spec["seed"])
    sc = gen.make_scene(spec["scene"])
    o, n = obj.direct(sc, ctx, spec["center"]), len(sc.cat)
    sel = [int(i) for i in rng.permutation(n)]
    sel = np.array(sel) if spec["array"] else sel
    R = np.logspace(-1, 0, 12)
    rho = 1e6 / (R * 4 * (1 + R * 4) ** 2) * np.ones((n, 1))
    before = call("getMassesCenters", o.getMassesCenters, sel)
    if spec["bad"] == "number":
        method = {"profile": spec["profile"]}
        m = [n + 1, n - 1, 0, 2 * n, n + 3][spec["k"] % 5]
        what = "profiles of %d objects for %d object numbers" % (m, n)
        rho = np.resize(rho[0], (m, len(R)))
    else:
        method = broken_method(spec)
        what = "method %r" % (method,)
    keep = rho.copy()
    for name, f in (("fitDensProfs", lambda: o.fitDensProfs(rho, R, method, sel)), ("estConcentrations", lambda: o.estConcentrations(rho, R, method, sel)),
                    ("plotDensProfs", lambda: o.plotDensProfs(rho, R, rho, R, method, 2, sel))):
        refuse("%s with %s" % (name, what), f)
    check(np.array_equal(rho, keep), "profiles changed by a refused fit")
    check(not left(ctx), lambda: "files left by refused fits: %s" % left(ctx))
    same(before, call("getMassesCenters after refused fits", o.getMassesCenters, sel), "masses and centres after a refused fit")
    return True


def run_accept(spec, ctx):
    """Every documented method is taken; the answer has the documented fields, and the method handed over is left alone."""
    rng = np.random.default_rng(spec["seed"])
    p = spec["profile"]
    sc = gen.make_scene(spec["scene"])
    o, n = obj.direct(sc, ctx, spec["center"]), len(sc.cat)
    R = np.logspace(-1.2, 0, 15)
    rho = 1e6 / (R * 4 * (1 + R * 4) ** 2) * np.ones((n, 1))
    true = {"rho_s": 1e6, "r_s": 0.25 * float(np.mean(sc.r200)), "alpha": 1.0 if p != "einasto" else 0.2, "beta": 3.0, "gamma": 1.0}
    f = FIELDS[p]
    method = {"profile": p}
    for i, name in enumerate(f):
        if spec["mask"] >> i & 1:
            method[name] = true[name]
    if spec["min"]:
        method["min_method"] = spec["min"]
    keep = dict(method)
    sel = [int(i) for i in rng.permutation(n)]
    if spec["call"] == 0:
        fit = call("fitDensProfs with %r" % method, o.fitDensProfs, rho, R, method, sel)
        check(fit.dtype.names is not None and set(fit.dtype.names) == set(f) | {"is_conv"}, "fields %s of a fit of the %s profile" % (fit.dtype.names, p))
        check(fit.shape == (n,), "%s fits of %d objects" % (fit.shape, n))
    elif spec["call"] == 1:
        c = np.asarray(call("estConcentrations with %r" % method, o.estConcentrations, rho, R, method, sel))
        check(c.shape == (n,), "%s concentrations of %d objects" % (c.shape, n))
    else:
        call("plotDensProfs with %r" % method, o.plotDensProfs, rho, R, rho, R, method, 1 + spec["seed"] % 2, sel)
        check(any(x.startswith("RhoProf") for x in left(ctx)), "plotDensProfs with %r drew nothing" % method)
    check(method == keep, "the method was changed to %r" % method)
    return True


def run_construct(spec, ctx):
    """Constructors refuse arguments that contradict each other or name nothing."""
    k = spec["k"]
    if spec["gadget"]:
        U, want, make = gadget(spec, ctx)
        bad = [
            ("OBJ_TYPE", ["dark", "DM", "", "star", "dmo", None, 1][k % 7]),
            ("RVIR_OR_R200", ["r200", "R500", "", "rvir", "Rvir ", None][k % 6]),
            ("GROUP_DEST", [ctx.dir("empty"), os.path.join(ctx.dir("empty"), "nowhere")][k % 2]),
            ("SNAP_DEST", [os.path.join(ctx.dir("empty"), "snap_024"), ctx.dir("empty") + "/snap_024.hdf5"][k % 2]),
        ][spec["which"] % 4]
        refuse("DensShapeProfsGadget with %s = %r" % bad, lambda: make(**dict([bad])))
        o = call("DensShapeProfsGadget() after a refused one", make)
        idx, size = call("getIdxCat", o.getIdxCat)
        check(list(size) == [n for _, _, n in want], "objects have %s instead of %s particles after a refused construction" % (list(size), [n for _, _, n in want]))
    else:
        sc = gen.make_scene(spec["scene"])
        n = len(sc.xyz)
        if spec["which"] % 2:
            m = [sc.m[:-1], np.append(sc.m, 1.0), sc.m[:0], np.tile(sc.m, 2)][k % 4]
            refuse("%d particles with %d masses" % (n, len(m)), lambda: obj_class()(sc.xyz, m, sc.cat, sc.r200, sc.L, "024", ctx.dir("viz"), ctx.dir("cat"), MIN_NUMBER_PTCS=1, CENTER=spec["center"]))
        else:
            c = [tuple(sc.cat), np.array([sc.cat[0]]), dict(enumerate(sc.cat)), None, 3, iter(sc.cat)][k % 6]
            refuse("a catalogue of type %s" % type(c).__name__, lambda: obj_class()(sc.xyz, sc.m, c, sc.r200, sc.L, "024", ctx.dir("viz"), ctx.dir("cat"), MIN_NUMBER_PTCS=1, CENTER=spec["center"]))
        o = obj.direct(sc, ctx, spec["center"])
        mc = call("getMassesCenters", o.getMassesCenters, list(range(len(sc.cat))))
        close(mc["mass"], [sc.m[c].sum() for c in sc.cat], rtol=1e-5, what="masses after a refused construction")
    check(not left(ctx), lambda: "files left by constructors: %s" % left(ctx))
    return True


def obj_class():
    from cosmic_profiles import DensShapeProfs
    return DensShapeProfs


def files(d):
    return {n: open(os.path.join(d, n), "rb").read() for n in sorted(os.listdir(d)) if n.endswith(".txt")}


def run_defaults(spec, ctx):
    """Settings left out are those of the documentation."""
    rng = np.random.default_rng(spec["seed"])
    k = spec["which"]
    if spec["gadget"]:
        big = spec["minp"]
        minp = 200 if big else 1
        U, want, make = gadget(spec, ctx, minp)
        if big:  # 200 particles, the densest point, the virial radius
            a = call("DensShapeProfsGadget() with defaults", make, RVIR_OR_R200="<default>", MIN_NUMBER_PTCS="<default>", CENTER="<default>")
            b = call("DensShapeProfsGadget()", make, RVIR_OR_R200="Rvir", MIN_NUMBER_PTCS=200, CENTER="mode")
        else:
            a = call("DensShapeProfsGadget() with defaults", make, RVIR_OR_R200="<default>", CENTER="<default>")
            b = call("DensShapeProfsGadget()", make, RVIR_OR_R200="Rvir", CENTER="mode")
        n = len(want)
        same(call("getR200", a.getR200), call("getR200", b.getR200), "R200 with the default RVIR_OR_R200")
        i, s = call("getIdxCat", a.getIdxCat)
        check(list(s) == [x for _, _, x in want], "objects of %s particles with a minimum of %d (%s): expected %s" % (list(s), minp, "default" if big else "given", [x for _, _, x in want]))
    else:
        sc = gen.make_scene(spec["scene"])
        if spec["minp"]:  # Sizes about 200 particles
            sizes = [int(x) for x in rng.integers(190, 211, size=3)] + [200, 199]
            sc.xyz = rng.uniform(4, 5, size=(sum(sizes), 3))
            sc.m = rng.uniform(0.5, 1, size=sum(sizes))
            off = np.cumsum([0] + sizes)
            sc.cat = [list(range(off[i], off[i + 1])) for i in range(len(sizes))]
            sc.r200 = rng.uniform(0.3, 1, size=len(sizes))
            sc.L = 0.0
            a = call("DensShapeProfs() with defaults", obj_class(), sc.xyz, sc.m, sc.cat, sc.r200, sc.L, "024", ctx.dir("viz"), ctx.dir("cat"))
            b = call("DensShapeProfs()", obj_class(), sc.xyz, sc.m, sc.cat, sc.r200, sc.L, "024", ctx.dir("viz"), ctx.dir("cat"), 200, "mode")
            s = list(call("getIdxCat", a.getIdxCat)[1])
            check(s == [x for x in sizes if x >= 200], "objects of %s particles kept by default, of %s" % (s, sizes))
            n = len(s)
        else:
            a = call("DensShapeProfs() with the default centre", obj_class(), sc.xyz, sc.m, sc.cat, sc.r200, sc.L, "024", ctx.dir("viz"), ctx.dir("cat"), MIN_NUMBER_PTCS=1)
            b = obj.direct(sc, ctx, "mode")
            n = len(sc.cat)
    sel = list(range(n))
    same(call("getMassesCenters", a.getMassesCenters, sel), call("getMassesCenters", b.getMassesCenters, sel), "masses and centres with defaults")
    cfg = {x: (y.copy() if isinstance(y, np.ndarray) else y) for x, y in DOCUMENTED.items()}
    R = np.logspace(-1, 0, 5)
    pairs = [
        ("getShapeCatLocal", lambda o, c: o.getShapeCatLocal(sel, *c)),
        ("getShapeCatGlobal", lambda o, c: o.getShapeCatGlobal(sel, *c)),
        ("estDensProfs (ellipsoidal)", lambda o, c: o.estDensProfs(R, sel, True, False, *c)),
    ]
    if spec["gadget"]:
        pairs += [
            ("getShapeCatVelLocal", lambda o, c: o.getShapeCatVelLocal(sel, *c)),
            ("getShapeCatVelGlobal", lambda o, c: o.getShapeCatVelGlobal(sel, *c)),
        ]
    name, f = pairs[k % len(pairs)]
    same(call(name + " with defaults", f, a, ()), call(name, f, b, (cfg,)), "%s with the default configuration" % name)
    same(call("estDensProfs with defaults", a.estDensProfs, R, sel), call("estDensProfs", b.estDensProfs, R, sel, direct_binning=True, spherical=True), "estDensProfs with defaults")
    same(call("estDensProfs with defaults", a.estDensProfs, R, sel, False), call("estDensProfs", b.estDensProfs, R, sel, direct_binning=False, spherical=True), "kernel-based estDensProfs with defaults")
    rho = 1e6 / (R * 4 * (1 + R * 4) ** 2) * rng.uniform(0.9, 1.1, size=(n, 5))
    p = sorted(FIELDS)[k % 4]
    g = lambda o, m: o.fitDensProfs(rho[:1], R, m, sel[:1])
    if k % 3 == 0:
        same(call("fitDensProfs with the default minimiser", g, a, {"profile": p}), call("fitDensProfs", g, b, {"profile": p, "min_method": "Powell"}), "fit of %s with the default minimiser" % p)
    # Dumps, in two places.
    kind = k // 4 % (4 if spec["gadget"] else 2)
    d = [lambda o, c: o.dumpShapeCatLocal(sel, *c), lambda o, c: o.dumpShapeCatGlobal(sel, *c), lambda o, c: o.dumpShapeVelCatLocal(sel, *c), lambda o, c: o.dumpShapeVelCatGlobal(sel, *c)][kind]
    call("a dump with defaults", d, a, ())
    one = files(ctx.dir("cat"))
    for x in one:
        os.remove(os.path.join(ctx.dir("cat"), x))
    call("a dump", d, b, (cfg,))
    two = files(ctx.dir("cat"))
    check(one and one == two, lambda: "dumps %s with the default configuration and %s with the documented one differ in %s" % (
        sorted(one), sorted(two), [x for x in set(one) | set(two) if one.get(x) != two.get(x)]))
    return True


BASE = {"seed": gen.SEED, "k": st.integers(0, 419), "which": st.integers(0, 11), "center": st.sampled_from(["com", "mode"]), "scene": gen.scene_strategy((1, 4), 1, 40)}
GAD = {"gadget": st.sampled_from([False, False, True]), "u": gad.universe_strategy(), "type": st.sampled_from(["dm", "dm", "gas", "stars"])}
PROF = st.sampled_from(sorted(FIELDS))
SUBS = [
    Sub("config", st.fixed_dictionaries(dict(BASE, **GAD, broken=st.sampled_from(BROKEN))), run_config, quick=1500, weight=1.5),
    Sub("method", st.fixed_dictionaries(dict(BASE, bad=st.sampled_from(["type", "noname", "name", "field", "field", "minimiser", "number"]), profile=PROF, array=st.booleans())), run_method, quick=1200),
    Sub("construct", st.fixed_dictionaries(dict(BASE, **GAD)), run_construct, quick=700, weight=0.7),
    Sub("accept", st.fixed_dictionaries(dict(BASE, profile=PROF, mask=st.integers(0, 31), min=st.sampled_from(["", "", "L-BFGS-B", "L-BFGS-B", "SLSQP"] + MINIMISERS), call=st.integers(0, 2))), run_accept, quick=200),
    Sub("defaults", st.fixed_dictionaries(dict(BASE, **GAD, minp=st.sampled_from([False, False, True]))), run_defaults, quick=250, weight=1.5),
]
