"""Density profile models and fits."""
import numpy as np
from hypothesis import strategies as st
from scipy import optimize

from vlib import gen, obj, ref
from vlib.core import Skip, Sub, Violation, call, check, close, expect_raises

RULE = ("models: every case; fits: a case counts when at least one profile is fitted with at least one parameter left free and five or more radii "
        "(recover, noisy: and the parameters or the objective are compared with the independent optimum)")

FIELDS = {"nfw": ["rho_s", "r_s"], "hernquist": ["rho_s", "r_s"], "einasto": ["rho_s", "alpha", "r_s"],
          "alpha_beta_gamma": ["rho_s", "alpha", "beta", "gamma", "r_s"]}
METHODS = ["Nelder-Mead", "L-BFGS-B", "TNC", "SLSQP", "Powell", "trust-constr"]


def reliable(mm, profile, nfree):
    """Minimisers expected to find the minimum of these one- and two-parameter problems (the others stop early now and then)."""
    if mm in ("", "Powell", "L-BFGS-B"):
        return mm
    if nfree == 1 and mm in ("Nelder-Mead", "TNC", "SLSQP"):
        return mm
    if mm == "Nelder-Mead" and profile in ("nfw", "hernquist"):
        return mm
    return "L-BFGS-B"


PROF = st.sampled_from(list(FIELDS))


def true_pars(profile, rng, r200):
    p = {"rho_s": 10.0 ** rng.uniform(-2, 4), "r_s": r200 / 10.0 ** rng.uniform(0.35, 1.2)}
    if profile == "einasto":
        p["alpha"] = rng.uniform(0.12, 0.35)
    if profile == "alpha_beta_gamma":
        p.update(alpha=rng.uniform(0.7, 1.5), beta=rng.uniform(2.6, 3.8), gamma=rng.uniform(0.5, 1.5))
    return p


def fake(n, rng, ctx):
    """A catalogue of n objects with given R200; the particles do not matter for a fit."""
    sc = gen.Scene()
    sc.xyz = rng.uniform(1, 2, size=(4 * n, 3))
    sc.m = np.ones(4 * n)
    sc.cat = [list(range(4 * i, 4 * i + 4)) for i in range(n)]
    sc.r200 = 10.0 ** rng.uniform(-1.2, 0.4, size=n)
    sc.L = 10.0
    return sc


def radii(rng):
    return np.logspace(rng.uniform(-2.2, -1.2), rng.uniform(-0.1, 0.1), int(rng.integers(8, 26)))


def to_out(p, fl, fd):
    q = dict(p)
    q["r_s"] = p["r_s"] * fl
    q["rho_s"] = p["rho_s"] * fd
    return q


def setup(spec, ctx):
    """-> rng, object, selection, r200 (Mpc/h), radii, parameters per object (Mpc/h, internal density), length and density factors to Out."""
    rng = np.random.default_rng(spec["seed"])
    lin, min_, lout, mout = obj.units("Mpc/h", "E+10Msun/h", spec["outl"], spec["outm"])
    fl = gen.length_cm("Mpc/h", 0.6774) / lout
    fd = gen.mass_g("E+10Msun/h", 0.6774) / mout / fl ** 3
    n = spec["n"]
    sc = fake(n, rng, ctx)
    o = obj.direct(sc, ctx)
    sel = [int(i) for i in rng.permutation(n)[: max(1, n - spec["seed"] % 2)]]
    R = radii(rng)
    ps = [true_pars(spec["profile"], rng, sc.r200[k]) for k in sel]
    return rng, o, sel, sc.r200[sel], R, ps, fl, fd


def method(spec, p=None, free=(), **k):
    m = {"profile": spec["profile"]}
    if spec["min_method"]:
        m["min_method"] = spec["min_method"]
    m.update(k)
    return m


def objective(profile, p, r, rho):
    with np.errstate(all="ignore"):
        return float(np.mean((np.log(rho) - np.log(ref.models(profile, p, r))) ** 2))


def run_models(spec, ctx):
    from cosmic_profiles.dens_profs import dens_profs_tools as T
    from cosmic_profiles.mock_tools import mock_halo_gen  # noqa: F401
    rng = np.random.default_rng(spec["seed"])
    f = {"nfw": T.getNFWProf, "hernquist": T.getHernquistProf, "einasto": T.getEinastoProf, "alpha_beta_gamma": T.getAlphaBetaGammaProf}[spec["profile"]]
    p = true_pars(spec["profile"], rng, 1.0)
    r = 10.0 ** rng.uniform(-3, 2, size=12)
    q = dict(p)
    got = call("model", f, r, q)
    check(q == p, "the model function changed its parameters")
    close(got, ref.models(spec["profile"], p, r), rtol=1e-10, what=spec["profile"] + " profile")
    close(f(float(r[0]), p), ref.models(spec["profile"], p, r[0]), rtol=1e-10, what=spec["profile"] + " profile (scalar radius)")
    # NFW and Hernquist are members of the (alpha, beta, gamma) family.
    if spec["profile"] in ("nfw", "hernquist"):
        q = dict(p, alpha=1.0, beta=3.0 if spec["profile"] == "nfw" else 4.0, gamma=1.0)
        close(T.getAlphaBetaGammaProf(r, q), got, rtol=1e-10, what="(1, %g, 1) profile against %s" % (q["beta"], spec["profile"]))
    return True


def run_recover(spec, ctx):
    """Noise-free profiles, at most two free parameters (rho_s and r_s): the parameters come back, in Out units."""
    rng, o, sel, r200, R, ps, fl, fd = setup(spec, ctx)
    prof = spec["profile"]
    if prof == "alpha_beta_gamma" and spec["cored"]:
        for p in ps:
            p["gamma"] = 0.0
    # One set of fixed shape parameters for all.
    shape = {k: ps[0][k] for k in FIELDS[prof] if k not in ("rho_s", "r_s")}
    for p in ps:
        p.update(shape)
    fix = dict(shape)
    if spec["fix"] == "r_s":
        for p in ps:
            p["r_s"] = ps[0]["r_s"]
        fix["r_s"] = ps[0]["r_s"] * fl
    elif spec["fix"] == "rho_s":
        for p in ps:
            p["rho_s"] = ps[0]["rho_s"]
        fix["rho_s"] = ps[0]["rho_s"] * fd
    rho = np.array([ref.models(prof, p, R * r) for p, r in zip(ps, r200)]) * fd
    keep = rho.copy()
    spec = dict(spec, min_method=reliable(spec["min_method"], prof, 1 if spec["fix"] else 2))
    got = call("fitDensProfs", o.fitDensProfs, rho, R, method(spec, **fix), sel)
    check(np.array_equal(rho, keep), "fitDensProfs changed the profiles it was given")
    check(got.dtype.names == tuple(FIELDS[prof] + ["is_conv"]), "fields of the fit: %s" % (got.dtype.names,))
    check(len(got) == len(sel), "%d fits for %d objects" % (len(got), len(sel)))
    for j, p in enumerate(ps):
        q = to_out(p, fl, fd)
        check(bool(got["is_conv"][j]), "noise-free %s profile: not converged" % prof)
        b = {k: float(got[k][j]) for k in FIELDS[prof]}
        for k in FIELDS[prof]:
            if k in fix:
                close(b[k], fix[k], rtol=1e-9, what="fixed parameter %s" % k)
        sig = "powell-poor-minimum" if spec["min_method"] in ("", "Powell") else None
        # Minimisers stop in the flat valley of (rho_s, r_s) now and then: a result as good as exact will do.
        if objective(prof, dict(b, rho_s=b["rho_s"] / fd, r_s=b["r_s"] / fl), R * r200[j], rho[j] / fd) < 1e-5:
            continue
        # Gradients are taken with respect to rho_s / mean(rho), where they vanish as its inverse; L-BFGS-B stops at 1e-5.
        tol = max(0.02, 1e-4 * q["rho_s"] / float(np.mean(rho[j]))) if spec["min_method"] == "L-BFGS-B" else 0.02
        for k in ("rho_s", "r_s"):
            if abs(b[k] / q[k] - 1) > tol:
                raise Violation("%s fitted to a noise-free %s profile (%d radii): %s = %.6g, expected %.6g" % (
                    spec["min_method"] or "default minimiser", prof, len(R), k, b[k], q[k]), sig=sig)
    return True


def best_2par(prof, shape, r, rho, lo, hi):
    """Minimum over (rho_s, r_s): rho_s in closed form, r_s by a scan and refinement."""
    def f(lrs):
        p = dict(shape, rho_s=1.0, r_s=np.exp(lrs))
        d = np.log(rho) - np.log(ref.models(prof, p, r))
        return float(np.mean((d - d.mean()) ** 2))
    g = np.linspace(np.log(lo), np.log(hi), 400)
    v = [f(x) for x in g]
    i = int(np.argmin(v))
    # Other local minima make the answer depend on the minimiser.
    loc = [k for k in range(1, len(v) - 1) if v[k] < v[k - 1] and v[k] <= v[k + 1]]
    if len(loc) != 1 or i in (0, len(v) - 1):
        raise Skip("not unimodal")
    res = optimize.minimize_scalar(f, bounds=(g[max(i - 1, 0)], g[min(i + 1, len(g) - 1)]), method="bounded", options={"xatol": 1e-9})
    return float(res.fun)


def run_noisy(spec, ctx):
    """The mean squared logarithmic residual of the result is the minimum."""
    spec = dict(spec, min_method=reliable(spec["min_method"], spec["profile"], 2))
    rng, o, sel, r200, R, ps, fl, fd = setup(spec, ctx)
    prof = spec["profile"]
    shape = {k: ps[0][k] for k in FIELDS[prof] if k not in ("rho_s", "r_s")}
    for p in ps:
        p.update(shape)
    rho = np.array([ref.models(prof, p, R * r) for p, r in zip(ps, r200)])
    rho = rho * np.exp(rng.normal(size=rho.shape) * spec["noise"])
    got = call("fitDensProfs", o.fitDensProfs, rho * fd, R, method(spec, **shape), sel)
    n = 0
    for j in range(len(sel)):
        r = R * r200[j]
        try:
            best = best_2par(prof, shape, r, rho[j], 1e-3 * r200[j], 30 * r200[j])
        except Skip:
            continue
        b = dict(shape, rho_s=got["rho_s"][j] / fd, r_s=got["r_s"][j] / fl)
        o_ = objective(prof, b, r, rho[j])
        n += 1
        if not o_ <= best * 1.02 + 1e-5:
            raise Violation("%s fit of %s: mean squared log residual %.6g, the minimum is %.6g" % (spec["min_method"], prof, o_, best))
    if not n:
        raise Skip
    return True


def run_fixed(spec, ctx):
    """Parameters given are kept, with every minimiser and any subset, in Out units; the rest are positive or the fit is flagged."""
    rng, o, sel, r200, R, ps, fl, fd = setup(spec, ctx)
    prof = spec["profile"]
    fix = [k for i, k in enumerate(FIELDS[prof]) if spec["mask"] >> i & 1]
    if "gamma" in fix and spec["cored"]:
        for p in ps:
            p["gamma"] = 0.0
    q = to_out(ps[0], fl, fd)
    rho = np.array([ref.models(prof, p, R * r) for p, r in zip(ps, r200)]) * fd
    m = method(spec, **{k: q[k] for k in fix})
    mk = dict(m)
    got = call("fitDensProfs with %s fixed (%s)" % (fix, spec["min_method"]), o.fitDensProfs, rho, R, m, sel)
    check(m == mk, "fitDensProfs changed the method dictionary: %s" % m)
    for j in range(len(sel)):
        if not got["is_conv"][j]:
            continue
        for k in fix:
            close(got[k][j], q[k], rtol=1e-9, what="%s, %s: fixed parameter %s" % (prof, spec["min_method"], k))
        for k in FIELDS[prof]:
            check(got[k][j] > 0 or k in fix, "%s, %s: %s = %g of a converged fit is not positive" % (prof, spec["min_method"], k, got[k][j]))
    return len(fix) < len(FIELDS[prof])


def run_meta(spec, ctx):
    """NaN entries count as missing radii; objects do not influence one another; a constant factor goes into rho_s."""
    rng, o, sel, r200, R, ps, fl, fd = setup(spec, ctx)
    prof = spec["profile"]
    rho = np.array([ref.models(prof, p, R * r) for p, r in zip(ps, r200)])
    rho = rho * np.exp(rng.normal(size=rho.shape) * 0.05)
    m = method(spec)
    how = spec["how"]
    names = FIELDS[prof] + ["is_conv"]
    if how in ("nan", "empty"):
        # Each object with gaps of its own: radii without an estimate, or bins without any particle.
        bad = rng.uniform(size=rho.shape) < rng.uniform(0, 0.6, size=(len(rho), 1))
        for b in bad:
            b[rng.permutation(len(R))[:5]] = False
        hole = np.full(rho.shape, np.nan)
        if how == "empty":
            hole[rng.uniform(size=rho.shape) < rng.choice([0.5, 1.0])] = 0.0
        nothing = int(rng.integers(len(sel))) if rng.uniform() < 0.3 else None
        if nothing is not None:
            bad[nothing] = True
        x = np.where(bad, hole, rho)
        a = call("fitDensProfs of profiles with gaps", o.fitDensProfs, x, R, m, sel)
        c = call("estConcentrations of profiles with gaps", o.estConcentrations, x, R, m, sel)
        for j in range(len(sel)):
            if j == nothing:
                check(not a["is_conv"][j], "%s fit to %s, a profile without a single density, is flagged as converged: %s" % (prof, x[j], a[j]))
                check(np.isnan(c[j]), "concentration %s from a profile without a single density" % c[j])
                continue
            b = call("fitDensProfs", o.fitDensProfs, rho[j:j + 1][:, ~bad[j]], R[~bad[j]], m, sel[j:j + 1])
            for k in names:
                close(a[k][j:j + 1].astype(float), b[k].astype(float), rtol=1e-9, what="%s radii against absent radii: %s" % (how, k))
    elif how == "alone":
        a = call("fitDensProfs", o.fitDensProfs, rho, R, m, sel)
        j = int(rng.integers(len(sel)))
        b = call("fitDensProfs of one object", o.fitDensProfs, rho[j:j + 1], R, m, [sel[j]])
        for k in names:
            close(b[k].astype(float), a[k][j:j + 1].astype(float), rtol=1e-9, what="fitted alone against fitted with others: %s" % k)
    else:
        # A power of two leaves the rescaled profile bit by bit the same.
        f = 2.0 ** rng.integers(-20, 20)
        a = call("fitDensProfs", o.fitDensProfs, rho, R, m, sel)
        b = call("fitDensProfs of scaled profiles", o.fitDensProfs, rho * f, R, m, sel)
        for k in names:
            close(b[k].astype(float), a[k].astype(float) * (f if k == "rho_s" else 1.0), rtol=1e-9, what="densities scaled by %g: %s" % (f, k))
    return True


SHAPES = [("einasto", "SLSQP", ("rho_s", "alpha")), ("alpha_beta_gamma", "L-BFGS-B", ("rho_s", "beta")),
          ("alpha_beta_gamma", "L-BFGS-B", ("rho_s", "gamma")), ("alpha_beta_gamma", "L-BFGS-B", ("rho_s", "gamma", "r_s")),
          ("alpha_beta_gamma", "L-BFGS-B", ("rho_s", "beta", "r_s")),
          ("alpha_beta_gamma", "L-BFGS-B", ("rho_s", "alpha", "beta", "gamma", "r_s"))]


def run_shapes(spec, ctx):
    """Shape parameters left free over a wide range: noise-free profiles are followed.

    Up to three per cent of these fits stop early, some regions more often; ten objects are fitted at once, and at most four of them failed in a thousand trials."""
    prof, mm, free = SHAPES[spec["case"]]
    rng, o, sel, r200, R, ps, fl, fd = setup(dict(spec, profile=prof, n=10, seed=spec["seed"] & ~1), ctx)
    span = {"einasto": {"alpha": (np.log(0.08), np.log(1.8))},
            "alpha_beta_gamma": {"alpha": (np.log(0.4), np.log(4)), "beta": (np.log(2), np.log(7)), "gamma": (np.log(0.1), np.log(2))}}[prof]
    part = {}
    for k, (a, b) in span.items():
        u = rng.uniform(0, 0.75)
        part[k] = (a + u * (b - a), a + (u + 0.25) * (b - a))
    rho = []
    fix = {}
    for p in ps:
        for k, (a, b) in part.items():
            p[k] = float(np.exp(rng.uniform(a, b)))
        for k in p:
            if k not in free:
                p[k] = ps[0][k]
                fix[k] = p[k] * (fl if k == "r_s" else fd if k == "rho_s" else 1.0)
    if "r_s" not in free:  # The same length in every object.
        fix["r_s"] = ps[0]["r_s"] * fl
    rho = np.array([ref.models(prof, p, R * r) for p, r in zip(ps, r200)])
    got = call("fitDensProfs", o.fitDensProfs, rho * fd, R, dict(fix, profile=prof, min_method=mm), sel)
    off = []
    for j, p in enumerate(ps):
        b = {k: float(got[k][j]) for k in FIELDS[prof]}
        off.append(objective(prof, dict(b, rho_s=b["rho_s"] / fd, r_s=b["r_s"] / fl), R * r200[j], rho[j]))
    bad = [j for j, x in enumerate(off) if not x < 1e-2]
    if len(bad) >= 8:
        j = bad[0]
        raise Violation("%s fits of %s with %s free: %d of 10 do not follow the noise-free profile; %s fitted as %s" % (
            mm, prof, list(free), len(bad), to_out(ps[j], fl, fd), {k: float(got[k][j]) for k in FIELDS[prof]}))
    return True


def run_errors(spec, ctx):
    rng = np.random.default_rng(spec["seed"])
    sc = fake(3, rng, ctx)
    o = obj.direct(sc, ctx)
    R = radii(rng)
    rho = np.ones((2, len(R)))
    for f in (o.fitDensProfs, o.estConcentrations):
        expect_raises("profiles of two objects with three object numbers", ValueError, f, rho, R, {"profile": "nfw"}, [0, 1, 2])
        expect_raises("an object number out of range", ValueError, f, rho, R, {"profile": "nfw"}, [0, 3])
        expect_raises("a repeated object number", ValueError, f, rho, R, {"profile": "nfw"}, [1, 1])
        expect_raises("an unknown profile", AssertionError, f, rho, R, {"profile": "king"}, [0, 1])
        expect_raises("no profile", AssertionError, f, rho, R, {"alpha": 0.18}, [0, 1])
        expect_raises("a string as method", AssertionError, f, rho, R, "nfw", [0, 1])
        expect_raises("an unknown minimiser", AssertionError, f, rho, R, {"profile": "nfw", "min_method": "BFGS2"}, [0, 1])
        bad = {"nfw": "alpha", "hernquist": "gamma", "einasto": "beta", "alpha_beta_gamma": "delta"}
        for p, k in bad.items():
            expect_raises("%s with %s" % (p, k), AssertionError, f, rho, R, {"profile": p, k: 1.0}, [0, 1])
    return True


U = {"seed": gen.SEED, "n": st.integers(1, 3), "profile": PROF, "outl": st.sampled_from(gen.LENGTHS), "outm": st.sampled_from(gen.MASSES)}
SUBS = [
    Sub("models", st.fixed_dictionaries({"seed": gen.SEED, "profile": PROF}), run_models, quick=400, weight=0.3),
    Sub("recover", st.fixed_dictionaries(dict(U, min_method=st.sampled_from(METHODS[:4] * 3 + ["", "Powell"]), fix=st.sampled_from(["", "", "r_s", "rho_s"]), cored=st.sampled_from([False, False, True]))),
        run_recover, quick=1200, weight=2),
    Sub("many", st.fixed_dictionaries(dict(U, n=st.sampled_from([4, 9, 11, 16, 24, 33]), min_method=st.sampled_from(METHODS[:2]), fix=st.sampled_from(["", "r_s", "rho_s"]),
                                           cored=st.booleans())), run_recover, quick=80, weight=0.6),
    Sub("noisy", st.fixed_dictionaries(dict(U, min_method=st.sampled_from(METHODS[:2]), noise=st.sampled_from([0.01, 0.05, 0.2]))), run_noisy, quick=600,
        weight=1.5),
    Sub("fixed", st.fixed_dictionaries(dict(U, min_method=st.sampled_from(METHODS[:5] * 3 + METHODS[5:] + [""]), mask=st.integers(0, 31), cored=st.booleans())), run_fixed,
        quick=800, weight=1.5),
    Sub("metamorphic", st.fixed_dictionaries(dict(U, min_method=st.sampled_from(METHODS[:5] + [""]), how=st.sampled_from(["nan", "empty", "alone", "scale"]))), run_meta,
        quick=600, weight=1.2),
    Sub("shapes", st.fixed_dictionaries(dict({k: U[k] for k in ("seed", "outl", "outm")}, case=st.integers(0, len(SHAPES) - 1))), run_shapes, quick=150, weight=1.0),
    Sub("errors", st.fixed_dictionaries({"seed": gen.SEED}), run_errors, quick=24, weight=0.2),
]
