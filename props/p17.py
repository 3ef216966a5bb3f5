"""FoF/subhalo catalogues: which particles make up an object; the Gadget front end and the direct one agree."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from props.p16 import unit_setup
from vlib import gad, gen, obj, ref
from vlib.core import Skip, Sub, Violation, call, check, close, expect_raises, same

RULE = ("a case counts when at least one central subhalo passes the resolution cut and at least one group comes before another one "
        "(catalogue), or when at least one object's results are compared (differential)")


def make(spec, ctx, minp, typ, fl, fm, U):
    from cosmic_profiles import DensShapeProfsGadget
    V = gad.convert(U, fl, fm)
    p = gad.write_hdf5(V, ctx.dir("snapdir"), nfiles=spec["nsnap"], dt=np.float64, seed=spec["k"])
    g = gad.write_groups(V, ctx.dir("groups"), nfiles=spec["ngrp"], seed=spec["k"], style=spec["k"] % 2, dt=np.float64)
    return lambda: DensShapeProfsGadget(p, g, typ, "024", ctx.dir("viz"), ctx.dir("cat"), RVIR_OR_R200=spec["rdef"], MIN_NUMBER_PTCS=minp,
                                        CENTER=spec["center"])


def run_cat(spec, ctx):
    U = gad.make_universe(spec["u"])
    fl, fm, ol, om = unit_setup(spec)
    t = gad.TYPES[spec["type"]]
    if U.n[t] == 0:
        raise Skip
    mk = make(spec, ctx, spec["minp"], spec["type"], fl, fm, U)
    want = gad.centrals(U, t, spec["minp"])
    o = call("DensShapeProfsGadget() with %d groups, %d group files" % (len(U.nsubs), spec["ngrp"]), mk)
    idx, size = call("getIdxCat", o.getIdxCat)
    r = call("getR200", o.getR200)
    check(list(size) == [n for _, _, n in want], "objects have %s particles, the central subhalos with >= %d particles have %s" % (
        list(size), spec["minp"], [n for _, _, n in want]))
    wi = np.concatenate([np.arange(s, s + n) for _, s, n in want]) if want else np.zeros(0)
    check(np.array_equal(np.asarray(idx), wi), "particle indices of the central subhalos are wrong: %s" % (list(idx)[:20],))
    src = U.r_th if spec["rdef"] == "Rvir" else U.r_mean
    close(r, np.array([src[g] for g, _, _ in want]) * ol, rtol=1e-5, what="getR200 (%s)" % spec["rdef"])
    if not want:
        expect_raises("getMassesCenters of an empty catalogue", ValueError, o.getMassesCenters, [0])
        return False
    mc = call("getMassesCenters", o.getMassesCenters, list(range(len(want))))
    for j, (g, s, n) in enumerate(want):
        close(mc["mass"][j], U.mass[t][s:s + n].sum() * om, rtol=1e-5, what="mass of object %d" % j)
    return len(U.nsubs) > 1


def run_diff(spec, ctx):
    """The same particles and index lists handed over directly give the same numbers."""
    U = gad.make_universe(spec["u"])
    fl, fm, ol, om = unit_setup(spec)
    t = gad.TYPES[spec["type"]]
    minp = 8
    want = gad.centrals(U, t, minp)
    if not want:
        raise Skip
    mk = make(spec, ctx, minp, spec["type"], fl, fm, U)
    V = gad.convert(U, fl, fm)
    a = call("DensShapeProfsGadget()", mk)
    src = V.r_th if spec["rdef"] == "Rvir" else V.r_mean
    sc = gen.Scene()
    # As the file holds them; R200 is kept in single precision by the group reader.
    fac = gen.length_cm(spec["inl"], spec["h"]) / gen.length_cm("Mpc/h", spec["h"])
    r200 = np.float64(np.float32(np.array([src[g] for g, _, _ in want]) * fac)) / fac
    b = obj.direct(sc, ctx, spec["center"], minp=minp, xyz=V.pos[t], m=V.mass[t], cat=[list(range(s, s + n)) for _, s, n in want], r200=r200,
                   L=V.L, catdir=ctx.dir("cat2"))
    sel = list(range(len(want)))[:: -1 if spec["k"] % 2 else 1]
    R = np.array([0.2, 0.5, 0.8, 1.1])
    close(call("getR200", b.getR200), call("getR200", a.getR200), rtol=1e-5, what="R200: direct against Gadget")
    ma, mb = a.getMassesCenters(sel), b.getMassesCenters(sel)
    close(mb["mass"], ma["mass"], rtol=1e-5, what="masses: direct against Gadget")
    close(mb["centre"], ma["centre"], rtol=1e-5, atol=3e-6 * U.L * ol, what="centres: direct against Gadget")
    which = spec["what"]
    cfg = obj.katz_config(R, imin=6, reduced=spec["reduced"])
    # Unambiguous ones only.
    okd = []
    for k in sel:
        g, s, n = want[k]
        x = U.pos[t][s:s + n]
        xu = ref.unwrap(x, U.L)
        if not ref.compact(xu, U.L):
            continue
        m = U.mass[t][s:s + n]
        rr = (U.r_th if spec["rdef"] == "Rvir" else U.r_mean)[g]
        try:
            if which in ("sph", "kernel"):
                d = ref.rel(xu, ref.center(xu, m, spec["center"]), U.L)
                dist = np.linalg.norm(d, axis=1)
                e = ref.sph_edges(R) * rr
                if np.abs(dist[:, None] / e[None, 1:] - 1).min() > 1e-5 and dist.min() > 1e-4 * rr:
                    okd.append((k, None))
            else:
                d = ref.rel(xu, ref.center(xu, m, spec["center"], ref.extent(xu)), U.L)
                if which == "local":
                    rs = ref.local_shapes(d, m, rr, R, 1e-2, 100, 6, spec["reduced"], False)
                else:
                    rs = [ref.katz(d, m, rr + 6.0, 1e-2, 100, 6, spec["reduced"])]
                okd.append((k, [not isinstance(q, Skip) for q in rs]))
        except Skip:
            continue
    if not okd:
        raise Skip
    pos = {k: j for j, k in enumerate(sel)}
    if which in ("sph", "kernel"):
        pa = call("estDensProfs (Gadget)", a.estDensProfs, R, sel, direct_binning=which == "sph")
        pb = call("estDensProfs (direct)", b.estDensProfs, R, sel, direct_binning=which == "sph")
        for k, _ in okd:
            j = pos[k]
            close(pb[j], pa[j], rtol=1e-4 if which == "sph" else 5e-3, atol=1e-5 * np.abs(pa[j]).max(), what="%s density: direct against Gadget" % which)
    else:
        fa, fb = (a.getShapeCatLocal, b.getShapeCatLocal) if which == "local" else (a.getShapeCatGlobal, b.getShapeCatGlobal)
        pa, pb = call("shapes (Gadget)", fa, sel, cfg), call("shapes (direct)", fb, sel, cfg)
        for k, ok in okd:
            j = pos[k]
            ok = np.array(ok)
            for f in ("d", "q", "s"):
                x, y = np.atleast_1d(np.squeeze(pb[f][j]))[ok], np.atleast_1d(np.squeeze(pa[f][j]))[ok]
                close(x, y, rtol=3e-4, what="%s shape, %s: direct against Gadget" % (which, f))
    return True


def run_errors(spec, ctx):
    from cosmic_profiles import DensShapeProfsGadget
    U = gad.make_universe(spec["u"])
    if U.n[1] == 0 or not gad.centrals(U, 1, 3):
        raise Skip
    V = gad.convert(U, 1, 1)
    p = gad.write_hdf5(V, ctx.dir("snapdir"))
    g = gad.write_groups(V, ctx.dir("groups"))
    empty = ctx.dir("nothing")
    a = (ctx.dir("viz"), ctx.dir("cat"))
    expect_raises("a group folder without HDF5 files", ValueError, DensShapeProfsGadget, p, empty, "dm", "024", *a)
    expect_raises("an unknown particle type", AssertionError, DensShapeProfsGadget, p, g, "neutrinos", "024", *a)
    expect_raises("an unknown radius definition", ValueError, DensShapeProfsGadget, p, g, "dm", "024", *a, RVIR_OR_R200="R500")
    expect_raises("a missing snapshot", Exception, DensShapeProfsGadget, p + "_missing", g, "dm", "024", *a)
    V.nsubs, V.fof_len, V.sub_len, V.r_th, V.r_mean = V.nsubs[:0], V.fof_len[:0], V.sub_len[:0], V.r_th[:0], V.r_mean[:0]
    g0 = gad.write_groups(V, ctx.dir("nogroups"))
    expect_raises("group files without any group", ValueError, DensShapeProfsGadget, p, g0, "dm", "024", *a)
    return True


def run_info(spec, ctx):
    """The summary printed counts the groups, the subhalos and the objects."""
    U = gad.make_universe(spec["u"])
    t = gad.TYPES[spec["type"]]
    if U.n[t] == 0:
        raise Skip
    fl, fm, _, _ = unit_setup(spec)
    o = call("DensShapeProfsGadget()", make(spec, ctx, spec["minp"], spec["type"], fl, fm, U))
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        call("getObjInfoGadget", o.getObjInfoGadget)
    want = gad.centrals(U, t, spec["minp"])
    lines = buf.getvalue().splitlines()
    for what, n in (("Number of objects with sufficient resolution", len(want)), ("with > 0 SHs", int((U.nsubs > 0).sum())), ("total number of objects is", len(U.nsubs)),
                    ("total number of SHs", len(U.sub_len)), ("objects that have no SH", int((U.nsubs == 0).sum())),
                    ("(central subhalos) that have sufficient resolution", len(want))):
        got = [l for l in lines if what in l]
        check(len(got) == 1 and got[0].split()[-1] == str(n), "getObjInfoGadget: %r, the number is %d" % (got, n))
    return len(want) > 0


BASE = {"k": st.integers(0, 1000), "type": st.sampled_from(["dm", "stars", "gas"]), "rdef": st.sampled_from(["Rvir", "R200"]),
        "center": st.sampled_from(["com", "mode"]), "nsnap": st.sampled_from([1, 1, 3]), "ngrp": st.sampled_from([1, 2, 3, 12]), "h": st.sampled_from([0.6774, 1.0]),
        "inl": st.sampled_from(gen.LENGTHS), "inm": st.sampled_from(gen.MASSES), "outl": st.sampled_from(gen.LENGTHS), "outm": st.sampled_from(gen.MASSES)}
SUBS = [
    Sub("catalogue", st.fixed_dictionaries(dict(BASE, u=gad.universe_strategy((1, 9), 30), minp=st.sampled_from([1, 2, 5, 12]))), run_cat, quick=1600),
    Sub("differential", st.fixed_dictionaries(dict(BASE, u=gad.universe_strategy((1, 4), 90), reduced=st.booleans(),
                                                   what=st.sampled_from(["sph", "kernel", "local", "global"]))), run_diff, quick=1600, weight=1.5),
    Sub("info", st.fixed_dictionaries(dict(BASE, u=gad.universe_strategy((1, 9), 20), minp=st.sampled_from([1, 2, 5, 12]))), run_info, quick=100, weight=0.2),
    Sub("errors", st.fixed_dictionaries({"u": gad.universe_strategy((1, 3), 20)}), run_errors, quick=60, weight=0.2),
]
