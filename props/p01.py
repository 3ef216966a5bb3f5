"""Unit systems: what goes in and comes out is in the units the user set."""
import numpy as np
from hypothesis import strategies as st

from vlib import gad, gen, obj, ref
from vlib.core import Skip, Sub, call, check, close, expect_raises

RULE = ("a case counts when at least one In or Out unit differs from the internal one (Mpc/h, 10^10 Msun/h, km/s), "
        "and for the invariance checks at least one object's results are compared")

UNIT = st.one_of(st.sampled_from(gen.LENGTHS), gen.fl(18.0, 28.0))
MUNIT = st.one_of(st.sampled_from(gen.MASSES), gen.fl(30.0, 46.0))
VUNIT = st.one_of(st.just("km/s"), gen.fl(0.0, 8.0))
HUB = st.sampled_from([0.6774, 0.7, 1.0, 0.5])


def val(u, h, kind):
    """-> what the user passes, its value in cgs."""
    if isinstance(u, str):
        return u, (gen.length_cm if kind == "l" else gen.mass_g)(u, h) if kind != "v" else 1e5
    return 10.0 ** u, 10.0 ** u


def run_conv(spec, ctx):
    """Converters, round trips, labels."""
    from cosmic_profiles.common import config
    h = spec["h"]
    i = [val(spec["in" + k], h, k) for k in "lmv"]
    o = [val(spec["out" + k], h, k) for k in "lmv"]
    if spec["order"]:
        call("updateOutUnitSystem", config.updateOutUnitSystem, o[0][0], o[1][0], o[2][0], h)
        call("updateInUnitSystem", config.updateInUnitSystem, i[0][0], i[1][0], i[2][0], h)
    else:
        call("updateInUnitSystem", config.updateInUnitSystem, i[0][0], i[1][0], i[2][0], h)
        call("updateOutUnitSystem", config.updateOutUnitSystem, o[0][0], o[1][0], o[2][0], h)
    internal = (gen.length_cm("Mpc/h", h), gen.mass_g("E+10Msun/h", h), 1e5)
    close(call("getLMVInternal", config.getLMVInternal), internal, rtol=1e-12, what="internal units in cgs")
    rng = np.random.default_rng(spec["seed"])
    names = ("Length", "Mass", "Vel")
    for j, nm in enumerate(names):
        f_in, f_out = i[j][1] / internal[j], internal[j] / o[j][1]
        if not (1e-30 < f_in < 1e30 and 1e-30 < f_out < 1e30):
            continue
        x = rng.normal(size=(5, 3)) * 10.0 ** rng.uniform(-3, 3)
        keep = x.copy()
        a = call(nm + "InToInternal", getattr(config, nm + "InToInternal"), x)
        b = call(nm + "InternalToOut", getattr(config, nm + "InternalToOut"), x)
        check(np.array_equal(x, keep), "%s converters changed their argument" % nm)
        close(a, x * f_in, rtol=1e-6, what="%sInToInternal" % nm)
        close(b, x * f_out, rtol=1e-6, what="%sInternalToOut" % nm)
        close(getattr(config, nm + "InToInternal")(2.5), 2.5 * f_in, rtol=1e-6, what="%sInToInternal of a scalar" % nm)
        close(getattr(config, nm + "InternalToOut")(a), x * (i[j][1] / o[j][1]), rtol=1e-6, what="%s: In to Out" % nm)
    lab = call("LMVLabel", config.LMVLabel)
    for j, k in enumerate("lmv"):
        u = spec["out" + k]
        if isinstance(u, str):
            got = 1e5 if k == "v" and lab[j] == "km/s" else (gen.length_cm if k == "l" else gen.mass_g)(lab[j], h) if k != "v" else 0.0
            close(got, o[j][1], rtol=1e-9, what="label %r for unit %r" % (lab[j], u))
            if h != 1.0:
                check(lab[j] == u, "label %r for unit %r" % (lab[j], u))
        else:
            base = {"l": (gen.KPC, "kpc"), "m": (gen.MSUN, "Msun"), "v": (1e5, "km/s")}[k]
            if abs(o[j][1] / base[0] - 1) < 1e-9 and lab[j] == base[1]:
                continue
            check(lab[j].endswith(base[1]), "label %r of a numeric unit" % lab[j])
            try:
                num = float(lab[j][: -len(base[1])])
            except ValueError:
                num = np.nan
            close(num, o[j][1] / base[0], rtol=6e-3, what="label %r of a numeric unit" % lab[j])
    return True


def run_bad(spec, ctx):
    """Names that are not units are refused, and what was set before stays in force."""
    from cosmic_profiles.common import config
    bad = spec["bad"]
    h = spec["h"]
    obj.units(spec["inl"], spec["inm"], spec["outl"], spec["outm"], h)
    x = np.array([1.0, 3.0])
    conv = [getattr(config, n + d) for n in ("Length", "Mass", "Vel") for d in ("InToInternal", "InternalToOut")]
    before = [np.asarray(f(x)) for f in conv]
    internal, label = config.getLMVInternal(), config.LMVLabel()
    h = spec["h2"]
    for name in ("updateInUnitSystem", "updateOutUnitSystem"):
        f = getattr(config, name)
        if bad not in gen.LENGTHS:
            expect_raises("%s with length %r" % (name, bad), AssertionError, f, bad, "Msun", "km/s", h)
        if bad not in gen.MASSES:
            expect_raises("%s with mass %r" % (name, bad), AssertionError, f, "kpc", bad, "km/s", h)
        if bad != "km/s":
            expect_raises("%s with velocity %r" % (name, bad), AssertionError, f, "kpc", "Msun", bad, h)
    for f, b in zip(conv, before):
        close(f(x), b, rtol=1e-12, what="%s after refused unit names" % f.__name__)
    close(config.getLMVInternal(), internal, rtol=1e-12, what="internal units after refused unit names")
    check(config.LMVLabel() == label, "labels %r after refused unit names, %r before" % (config.LMVLabel(), label))
    return True


def results(o, sel, R, cfg, what):
    if what == "sph":
        return call("estDensProfs", o.estDensProfs, R, sel, direct_binning=True)
    if what == "kernel":
        return call("estDensProfs", o.estDensProfs, R, sel, direct_binning=False)
    if what == "ell":
        return call("estDensProfs", o.estDensProfs, R, sel, direct_binning=True, spherical=False, katz_config=cfg)
    if what == "local":
        return call("getShapeCatLocal", o.getShapeCatLocal, sel, cfg)
    if what == "global":
        return call("getShapeCatGlobal", o.getShapeCatGlobal, sel, cfg)
    return call("getMassesCenters", o.getMassesCenters, sel)


def exact_units(spec):
    """Units that are a power of two of the internal ones: the conversion is exact, so no particle changes sides."""
    f = [2.0 ** k for k in spec["pow"]]
    return gen.length_cm("Mpc/h", spec["h"]) * f[0], gen.mass_g("E+10Msun/h", spec["h"]) * f[1], f


def compare(a, b, what, fl, fm, exact):
    """b was computed with Out units fl, fm times smaller."""
    rt = 2e-6 if exact else 3e-6
    if what in ("sph", "kernel", "ell"):
        close(b, a * (fm / fl ** 3), rtol=rt if what != "kernel" else 1e-4, atol=1e-12 * float(np.nanmax(np.abs(a))) * fm / fl ** 3 if np.any(np.isfinite(a)) else 0,
              what=what + " density")
    elif what in ("local", "global"):
        for k, f in (("d", fl), ("q", 1), ("s", 1), ("minor", 1), ("inter", 1), ("major", 1)):
            close(b[k], np.asarray(a[k], float) * f, rtol=rt, atol=1e-6 if k in ("minor", "inter", "major") else 0, what="%s shape, %s" % (what, k))
    else:
        close(b["mass"], a["mass"] * fm, rtol=rt, what="mass")
        close(b["centre"], a["centre"] * fl, rtol=rt, atol=1e-6 * fl, what="centre")


def run_out(spec, ctx):
    """Results in other Out units are the same numbers rescaled; also when the Out units change after the object was made."""
    sc = gen.make_scene(spec["scene"])
    h = spec["h"]
    obj.units(h=h)
    R = gen.make_rads(spec["R"])
    cfg = obj.katz_config(R, imin=5, reduced=spec["reduced"])
    what = spec["what"]
    o = obj.direct(sc, ctx, spec["center"])
    sel = list(range(len(sc.cat)))
    if what == "ell":
        s = call("getShapeCatLocal", o.getShapeCatLocal, sel, cfg)
        if not all(np.all(np.isfinite(s[k])) for k in ("d", "q", "s")):
            raise Skip
    a = results(o, sel, R, cfg, what)
    r_a = np.array(o.getR200())
    lin, min_, lo, mo = obj.units("Mpc/h", "E+10Msun/h", spec["outl"], spec["outm"], h)
    if not spec["late"]:
        o = obj.direct(sc, ctx, spec["center"])
    b = results(o, sel, R, cfg, what)
    fl, fm = lin / lo, min_ / mo
    compare(a, b, what, fl, fm, False)
    close(call("getR200", o.getR200), r_a * fl, rtol=1e-6, what="R200")
    return (spec["outl"], spec["outm"]) != ("Mpc/h", "E+10Msun/h")


def run_in(spec, ctx):
    """The same particles stated in other In units give the same results; changing the In units afterwards changes nothing."""
    sc = gen.make_scene(spec["scene"])
    h = spec["h"]
    ul, um, f = exact_units(spec)
    if spec["named"]:
        ul, um = spec["inl"], spec["inm"]
    R = gen.make_rads(spec["R"])
    cfg = obj.katz_config(R, imin=5, reduced=spec["reduced"])
    what = spec["what"]
    sel = list(range(len(sc.cat)))
    obj.units(h=h)
    o = obj.direct(sc, ctx, spec["center"])
    if what == "ell":
        s = call("getShapeCatLocal", o.getShapeCatLocal, sel, cfg)
        if not all(np.all(np.isfinite(s[k])) for k in ("d", "q", "s")):
            raise Skip
    if spec["named"]:
        # Conversion in single precision moves particles a little: only what is not at an edge.
        if what not in ("masses", "sph", "kernel"):
            raise Skip
        for k, cat in enumerate(sc.cat):
            xu = ref.unwrap(sc.xyz[cat], sc.L)
            if not ref.compact(xu, sc.L):
                raise Skip
            d = ref.rel(xu, ref.center(xu, sc.m[cat], spec["center"]), sc.L)
            dist = np.linalg.norm(d, axis=1)
            e = ref.sph_edges(R)[1:] * sc.r200[k]
            if what != "masses" and (np.abs(dist[:, None] / e - 1).min() < 1e-5 * max(1, sc.L / sc.r200[k]) or dist.min() < 1e-2 * sc.r200[k]):
                raise Skip
    a = results(o, sel, R, cfg, what)
    from cosmic_profiles.common import config
    call("updateInUnitSystem", config.updateInUnitSystem, ul, um, "km/s", h)
    gl = gen.length_cm("Mpc/h", h) / (gen.length_cm(ul, h) if spec["named"] else ul)
    gm = gen.mass_g("E+10Msun/h", h) / (gen.mass_g(um, h) if spec["named"] else um)
    if not spec["named"]:
        gl, gm = 1 / f[0], 1 / f[1]
    o = obj.direct(sc, ctx, spec["center"], xyz=sc.xyz * gl, m=sc.m * gm, r200=sc.r200 * gl, L=sc.L * gl)
    if spec["late"]:
        call("updateInUnitSystem", config.updateInUnitSystem, "pc", "Msun", "km/s", h)
    b = results(o, sel, R, cfg, what)
    if spec["named"]:
        if what == "masses":
            close(b["mass"], a["mass"], rtol=1e-6, what="mass")
            close(b["centre"], a["centre"], rtol=1e-6, atol=3e-6 * max(sc.L, 10.0), what="centre")
        else:
            close(b, a, rtol=1e-5 if what == "sph" else 2e-2, atol=1e-4 * np.nanmax(np.abs(a)), what="%s density" % what)
    else:
        compare(a, b, what, 1.0, 1.0, True)
    close(call("getR200", o.getR200), sc.r200, rtol=1e-6, what="R200")
    x, m = call("getXYZMasses", o.getXYZMasses)
    close(x, sc.xyz, rtol=1e-6, atol=1e-12, what="positions of getXYZMasses")
    close(m, sc.m, rtol=1e-6, what="masses of getXYZMasses")
    return True


def run_fits(spec, ctx):
    """Fits and concentrations of the same profiles stated in other Out units (powers of two of the internal ones, so rounding is the same)."""
    from props import p10
    rng = np.random.default_rng(spec["seed"])
    h = spec["h"]
    ul, um, f = exact_units(spec)
    fl, fm = 1 / f[0], 1 / f[1]
    fd = fm / fl ** 3
    prof = spec["profile"]
    n = spec["n"]
    sc = p10.fake(n, rng, ctx)
    R = p10.radii(rng)
    ps = [p10.true_pars(prof, rng, r) for r in sc.r200]
    rho = np.array([ref.models(prof, p, R * r) for p, r in zip(ps, sc.r200)]) * 10.0 ** rng.uniform(-0.05, 0.05, size=(n, len(R))) * 2.0 ** spec["scale"]
    free = ("rho_s", "r_s") if spec["two"] else p10.FIELDS[prof]
    fix = {k: ps[0][k] for k in p10.FIELDS[prof] if k not in free}
    if spec["given"]:
        fix["r_s"] = ps[0]["r_s"]
    sel = [int(i) for i in rng.permutation(n)]
    rho = rho[sel]
    res = []
    from cosmic_profiles.common import config
    for il, im, gl, gd in (("Mpc/h", "E+10Msun/h", 1.0, 1.0), (ul, um, fl, fd)):
        if il == "Mpc/h" or not spec["late"]:
            call("updateInUnitSystem", config.updateInUnitSystem, "Mpc/h", "E+10Msun/h", "km/s", h)
            call("updateOutUnitSystem", config.updateOutUnitSystem, il, im, "km/s", h)
            o = obj.direct(sc, ctx)
        else:
            call("updateOutUnitSystem", config.updateOutUnitSystem, il, im, "km/s", h)
        m = dict(fix, profile=prof)
        if "r_s" in m:
            m["r_s"] = m["r_s"] * gl
        if spec["method"]:
            m["min_method"] = spec["method"]
        a = call("fitDensProfs", o.fitDensProfs, rho * gd, R, dict(m), sel)
        c = call("estConcentrations", o.estConcentrations, rho * gd, R, dict(m), sel)
        res.append((a, c))
    a, b = res[0][0], res[1][0]
    for k in p10.FIELDS[prof]:
        close(b[k], a[k] * {"r_s": fl, "rho_s": fd}.get(k, 1.0), rtol=1e-6, what="fitted %s in other Out units" % k)
    check(np.array_equal(a["is_conv"], b["is_conv"]), "convergence of the fit depends on the Out units")
    close(res[1][1], res[0][1], rtol=1e-6, what="concentration in other Out units")
    return f != [1.0, 1.0]


VELS = ["km/s", 1.0, 100.0, 1e5, 2.5e6]


def snapshot(o, op, is_gadget):
    """One result of an object, as pairs (values, powers of length, mass and velocity)."""
    rng = np.random.default_rng(op["seed"])
    n = len(o.getIdxCat()[1])
    sel = [int(i) for i in rng.permutation(n)[: rng.integers(1, n + 1)]]
    R = np.sort(rng.uniform(0.1, 1.2, size=int(rng.integers(3, 6))))
    cfg = obj.katz_config(R, imin=5, reduced=bool(rng.integers(2)))
    w = op["what"]
    if w == "r200":
        return [(call("getR200", o.getR200), 1, 0, 0)]
    if w == "xyz":
        x, m = call("getXYZMasses", o.getXYZMasses)
        return [(x, 1, 0, 0), (m, 0, 1, 0)]
    if w == "vel":
        return [(call("getVelXYZ", o.getVelXYZ), 0, 0, 1)] if is_gadget else []
    if w == "idx":
        return [(np.array(call("getIdxCat", o.getIdxCat)[0], float), 0, 0, 0)]
    if w == "masses":
        a = call("getMassesCenters", o.getMassesCenters, sel)
        return [(a["mass"], 0, 1, 0), (a["centre"], 1, 0, 0)]
    if w in ("sph", "kernel"):
        return [(call("estDensProfs", o.estDensProfs, R, sel, direct_binning=w == "sph"), -3, 1, 0)]
    if w in ("vlocal", "vglobal") and not is_gadget:
        w = w[1:]
    f = {"local": "getShapeCatLocal", "global": "getShapeCatGlobal", "vlocal": "getShapeCatVelLocal", "vglobal": "getShapeCatVelGlobal"}[w]
    a = call(f, getattr(o, f), sel, cfg)
    return [(a["d"], 1, 0, 0)] + [(a[k], 0, 0, 0) for k in ("q", "s", "minor", "inter", "major")]


def run_sessions(spec, ctx):
    """Several data sets with unit systems (and values of h) of their own in one session: each keeps its physical values, whatever units are set later."""
    from cosmic_profiles import DensShapeProfsGadget
    from cosmic_profiles.common import config
    inst = []
    now = {}

    def cgs(u, h, kind):
        return val(u, h, kind)[1] if isinstance(u, str) else u

    def set_units(which, u):
        call("update%sUnitSystem" % which, getattr(config, "update%sUnitSystem" % which), u["l"], u["m"], u["v"], u["h"])
        now[which] = [cgs(u[k], u["h"], k) for k in "lmv"]

    for i, d in enumerate(spec["data"]):
        set_units("In", d["units"])
        if d["gadget"]:
            W = gad.make_universe(d["u"])
            if not gad.centrals(W, 1, 4):
                raise Skip
            V = gad.convert(W, 1.0, 1.0)
            p = gad.write_hdf5(V, ctx.dir("snapdir%d" % i), nfiles=1, dt=np.float64, seed=1)
            g = gad.write_groups(V, ctx.dir("groups%d" % i), nfiles=1, seed=1, dt=np.float64)

            def mk(p=p, g=g, i=i):
                return call("DensShapeProfsGadget()", DensShapeProfsGadget, p, g, "dm", "024", ctx.dir("viz%d" % i), ctx.dir("cat%d" % i), MIN_NUMBER_PTCS=4, CENTER=spec["center"])
        else:
            sc = gen.make_scene(d["scene"])

            def mk(sc=sc, i=i):
                return obj.direct(sc, ctx, spec["center"], viz=ctx.dir("viz%d" % i), catdir=ctx.dir("cat%d" % i))
        h = d["units"]["h"]
        set_units("Out", {"l": "Mpc/h", "m": "E+10Msun/h", "v": "km/s", "h": h})
        if not d["gadget"]:
            raw = [(np.array(sc.r200), 1, 0, 0), (sc.xyz, 1, 0, 0), (sc.m, 0, 1, 0)]
        else:
            raw = [(np.array([V.r_th[g_] for g_, _, _ in gad.centrals(W, 1, 4)]), 1, 0, 0), (V.pos[1], 1, 0, 0), (V.mass[1], 0, 1, 0)]
        inst.append({"o": mk(), "mk": mk, "gadget": d["gadget"], "h": h, "raw": raw, "want": {}, "in": list(now["In"])})
        # Reference results, in units in which nothing is converted, before anything else happens.
        for op in spec["ops"]:
            if op["op"] == "call" and op["inst"] % len(spec["data"]) == i:
                inst[-1]["want"][op["what"], op["seed"]] = [(np.array(a), *p_) for a, *p_ in snapshot(inst[-1]["o"], op, d["gadget"])]

    def cmp(got, want, base, what):
        out = now["Out"]
        for (a, *p_), (b, *_) in zip(got, want):
            f = np.prod([(base[k] / out[k]) ** p_[k] for k in range(3)])
            close(a, np.asarray(b, float) * f, rtol=5e-6, atol=1e-6 * f * (np.nanmax(np.abs(b)) if np.size(b) and np.any(np.isfinite(b)) else 1), what=what)

    changed = False
    nt = False
    hist = []
    for op in spec["ops"]:
        k = inst[op["inst"] % len(inst)]
        if op["op"] in ("In", "Out"):
            set_units(op["op"], op["units"])
            hist.append("%s %s" % (op["op"], op["units"]))
            changed = True
        elif op["op"] == "again":
            # The same numbers, taken in the units that are now in force.
            o = k["mk"]()
            x, m = call("getXYZMasses", o.getXYZMasses)
            cmp([(call("getR200", o.getR200), 1, 0, 0), (x, 1, 0, 0), (m, 0, 1, 0)], k["raw"], now["In"], "an object made of the same numbers after %s" % hist)
            hist.append("again")
        else:
            base = (gen.length_cm("Mpc/h", k["h"]), gen.mass_g("E+10Msun/h", k["h"]), 1e5)
            cmp(snapshot(k["o"], op, k["gadget"]), k["want"][op["what"], op["seed"]], base, "%s of data set %d (%s, In units %s) after %s" % (
                op["what"], op["inst"] % len(inst), "Gadget" if k["gadget"] else "direct", k["in"], hist))
            hist.append(op["what"])
            nt |= changed
    return nt


U = {"seed": gen.SEED, "h": HUB}
UNITS = st.fixed_dictionaries({"l": st.sampled_from(gen.LENGTHS), "m": st.sampled_from(gen.MASSES), "v": st.sampled_from(VELS), "h": HUB})
SCENE = {"scene": gen.scene_strategy((1, 3), 1, 80), "R": gen.rads_strategy(3, 6), "center": st.sampled_from(["com", "mode"]), "reduced": st.booleans(),
         "h": HUB, "late": st.booleans(), "what": st.sampled_from(["sph", "kernel", "ell", "local", "global", "masses"]),
         "inl": st.sampled_from(gen.LENGTHS), "inm": st.sampled_from(gen.MASSES), "outl": st.sampled_from(gen.LENGTHS), "outm": st.sampled_from(gen.MASSES)}
SUBS = [
    Sub("converters", st.fixed_dictionaries(dict(U, inl=UNIT, inm=MUNIT, inv=VUNIT, outl=UNIT, outm=MUNIT, outv=VUNIT, order=st.booleans())), run_conv,
        quick=3000, weight=0.7),
    Sub("bad-names", st.fixed_dictionaries({"bad": st.one_of(st.sampled_from(["", "MPC", "Mpc/H", "msun", "E+10 Msun", "cm", "km", "m/s", "kpc ", "Msun/h/h", "Mpc"]),
                                                             st.text(max_size=6)),
                                            "inl": st.sampled_from(gen.LENGTHS), "inm": st.sampled_from(gen.MASSES), "outl": st.sampled_from(gen.LENGTHS),
                                            "outm": st.sampled_from(gen.MASSES), "h": HUB, "h2": HUB}), run_bad, quick=800, weight=0.3),
    Sub("out-units", st.fixed_dictionaries(SCENE), run_out, quick=1600, weight=1.3),
    Sub("in-units", st.fixed_dictionaries(dict(SCENE, pow=st.tuples(st.integers(-12, 12), st.integers(-12, 12)).map(list), named=st.booleans())), run_in,
        quick=2000, weight=1.3),
    Sub("sessions", st.fixed_dictionaries({
        "data": st.lists(st.fixed_dictionaries({"gadget": st.booleans(), "units": UNITS, "scene": gen.scene_strategy((1, 3), 1, 60), "u": gad.universe_strategy((1, 3), 50)}),
                         min_size=1, max_size=2), "center": st.sampled_from(["com", "mode"]),
        "ops": st.lists(st.fixed_dictionaries({"op": st.sampled_from(["In", "Out", "call", "call", "call", "again"]), "inst": st.integers(0, 1), "units": UNITS,
                                               "what": st.sampled_from(["r200", "xyz", "vel", "idx", "masses", "sph", "kernel", "local", "global", "vlocal", "vglobal"]),
                                               "seed": st.integers(0, 5)}), min_size=2, max_size=8)}), run_sessions, quick=1200, weight=1.3),
    Sub("fits", st.fixed_dictionaries({"seed": gen.SEED, "h": HUB, "pow": st.tuples(st.integers(-14, 14), st.integers(-20, 20)).map(list),
                                       "profile": st.sampled_from(["nfw", "hernquist", "einasto", "alpha_beta_gamma"]), "n": st.integers(1, 3),
                                       "scale": st.integers(-20, 20), "two": st.booleans(), "given": st.booleans(), "late": st.booleans(),
                                       "method": st.sampled_from(["", "Nelder-Mead", "L-BFGS-B", "TNC", "SLSQP"])}), run_fits, quick=400, weight=0.7),
]
