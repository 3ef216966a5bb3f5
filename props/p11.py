"""Concentrations: R200 over the fitted scale radius."""
import numpy as np
from hypothesis import strategies as st

from props import p10
from vlib import gen, obj, ref
from vlib.core import Skip, Sub, Violation, call, check, close

RULE = ("a case counts when the concentrations of at least one object are compared with R200 divided by the scale radius of the same fit "
        "or with the concentration the profile was made with")


def noisy(rng, prof, ps, R, r200, amp):
    rho = np.array([ref.models(prof, p, R * r) for p, r in zip(ps, r200)])
    return rho * np.exp(rng.normal(size=rho.shape) * amp)


def run_ratio(spec, ctx):
    """The concentration is R200 / r_s of what fitDensProfs returns for the same input, whatever the units."""
    rng, o, sel, r200, R, ps, fl, fd = p10.setup(spec, ctx)
    prof = spec["profile"]
    rho = noisy(rng, prof, ps, R, r200, 0.03) * fd
    fix = {}
    q = p10.to_out(ps[0], fl, fd)
    names = p10.FIELDS[prof]
    for i, k in enumerate(names):
        if spec["mask"] >> i & 1 and len(fix) < len(names) - 1:
            fix[k] = q[k]
    m = p10.method(spec, **fix)
    keep, mk = rho.copy(), dict(m)
    c = call("estConcentrations", o.estConcentrations, rho, R, m, sel)
    check(np.array_equal(rho, keep) and m == mk, "estConcentrations changed its arguments")
    f = call("fitDensProfs", o.fitDensProfs, rho, R, m, sel)
    rr = np.asarray(call("getR200", o.getR200), dtype=np.float64)[sel]
    close(rr, r200 * fl, rtol=1e-6, what="getR200")
    check(np.shape(c) == (len(sel),), "shape of the concentrations: %s for %d objects" % (np.shape(c), len(sel)))
    close(c, rr / f["r_s"], rtol=1e-6, what="concentration against R200 / r_s of fitDensProfs (%s, %s)" % (prof, spec["min_method"]))
    return True


def run_recover(spec, ctx):
    """Noise-free profiles: the concentration they were made with."""
    spec = dict(spec, min_method=p10.reliable(spec["min_method"], spec["profile"], 2))
    rng, o, sel, r200, R, ps, fl, fd = p10.setup(spec, ctx)
    prof = spec["profile"]
    shape = {k: ps[0][k] for k in p10.FIELDS[prof] if k not in ("rho_s", "r_s")}
    for p in ps:
        p.update(shape)
    rho = noisy(rng, prof, ps, R, r200, 0.0) * fd
    c = call("estConcentrations", o.estConcentrations, rho, R, p10.method(spec, **shape), sel)
    close(c, [r / p["r_s"] for r, p in zip(r200, ps)], rtol=0.02, what="concentration of a noise-free %s profile" % prof)
    return True


def run_units(spec, ctx):
    """The concentration has no unit: any Out (and In) unit system gives the same number."""
    rng = np.random.default_rng(spec["seed"])
    prof = spec["profile"]
    n = spec["n"]
    sc = p10.fake(n, rng, ctx)
    R = p10.radii(rng)
    ps = [p10.true_pars(prof, rng, r) for r in sc.r200]
    shape = {k: ps[0][k] for k in p10.FIELDS[prof] if k not in ("rho_s", "r_s")}
    rho = noisy(rng, prof, ps, R, sc.r200, 0.03)
    res = []
    m = dict(shape, profile=prof, min_method="L-BFGS-B")
    for inl, outl, outm in (("Mpc/h", "Mpc/h", "E+10Msun/h"), (spec["inl"], spec["outl"], spec["outm"])):
        li, mi, lo, mo = obj.units(inl, "E+10Msun/h", outl, outm)
        f = gen.length_cm("Mpc/h", 0.6774) / li
        fl = gen.length_cm("Mpc/h", 0.6774) / lo
        fm = gen.mass_g("E+10Msun/h", 0.6774) / mo
        o = obj.direct(sc, ctx, xyz=sc.xyz * f, r200=sc.r200 * f, L=sc.L * f)
        res.append(call("estConcentrations", o.estConcentrations, rho * (fm / fl ** 3), R, m, list(range(n))))
    for k in range(n):
        def misfit(c):
            d = np.log(rho[k] / ref.models(prof, dict(shape, rho_s=1.0, r_s=sc.r200[k] / c), R * sc.r200[k]))
            return d.var()
        a, b = float(res[0][k]), float(res[1][k])
        # Flat valleys: the minimiser may stop a little apart, at equally good places.
        if not (abs(a - b) <= 5e-3 * a or (abs(a - b) <= 0.15 * a and abs(misfit(a) - misfit(b)) <= 0.02 * misfit(a))):
            raise Violation("concentration of object %d in %s, %s: %.8g, in Mpc/h %.8g" % (k, spec["outl"], spec["outm"], b, a))
    return True


def run_sampled(spec, ctx):
    """End to end: particles drawn from an NFW or Hernquist halo, binned by the package, fitted: within the sampling error of the true value."""
    rng = np.random.default_rng(spec["seed"])
    c0 = 10.0 ** rng.uniform(0.5, 1.1)
    n = 6000
    u = (np.arange(n) + rng.uniform(size=n)) / n
    x = np.logspace(-4, 0, 4000) * c0
    mass = np.log1p(x) - x / (1 + x) if spec["profile"] == "nfw" else x ** 2 / (1 + x) ** 2
    r = np.interp(u * mass[-1], mass, x) / c0
    v = rng.normal(size=(n // 2, 3))
    v /= np.linalg.norm(v, axis=1)[:, None]
    v = np.concatenate((v, -v))
    # Mirrored pairs: the centre of mass is the centre.
    r = np.concatenate((r[0::2], r[0::2]))
    r200 = 10.0 ** rng.uniform(-1, 0)
    sc = gen.Scene()
    sc.xyz = v * (r * r200)[:, None] + 5.0
    sc.m = np.full(n, 10.0 ** rng.uniform(-3, 1))
    sc.cat = [list(range(n))]
    sc.r200 = np.array([r200])
    sc.L = 10.0
    obj.units("Mpc/h", "E+10Msun/h", spec["outl"], spec["outm"])
    o = obj.direct(sc, ctx)
    R = np.logspace(-1.3, 0, 14)
    rho = call("estDensProfs", o.estDensProfs, R, [0], direct_binning=True)
    if not np.all(rho > 0):
        raise Skip
    c = call("estConcentrations", o.estConcentrations, rho, R, {"profile": spec["profile"], "min_method": "L-BFGS-B"}, [0])
    # The bins are wide, the objective takes their middle radius: allow for it.
    check(c0 / 1.45 < c[0] < c0 * 1.45, "halo with concentration %.3g: estimate %.3g" % (c0, c[0]))
    return True


U = p10.U
SUBS = [
    Sub("ratio", st.fixed_dictionaries(dict(U, min_method=st.sampled_from(p10.METHODS[:5] + [""]), mask=st.sampled_from([0, 0, 1, 2, 4, 3, 6, 8, 12, 14]))),
        run_ratio, quick=700, weight=1.5),
    Sub("recover", st.fixed_dictionaries(dict(U, min_method=st.sampled_from(p10.METHODS[:4]))), run_recover, quick=800),
    Sub("many", st.fixed_dictionaries(dict(U, n=st.sampled_from([4, 9, 11, 16, 24, 33]), min_method=st.sampled_from(p10.METHODS[:2]))), run_recover, quick=80, weight=0.6),
    Sub("units", st.fixed_dictionaries(dict(U, inl=st.sampled_from(gen.LENGTHS))), run_units, quick=500),
    Sub("sampled", st.fixed_dictionaries(dict(seed=gen.SEED, profile=st.sampled_from(["nfw", "hernquist"]), outl=st.sampled_from(gen.LENGTHS),
                                              outm=st.sampled_from(gen.MASSES))), run_sampled, quick=200, weight=1),
]
