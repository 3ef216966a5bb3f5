"""Several MPI ranks: every analysis gives rank 0 what a single process gets, and no rank fails or hangs."""
import os
import shutil

import numpy as np
from hypothesis import strategies as st

from props.p16 import unit_setup
from vlib import gad, gen, obj
from vlib.core import Skip, Sub, Violation, same

RULE = "a case counts when at least one object was analysed by 2 or more ranks and compared with the single process"
TIMEOUT = 60
WORLDS = {}


def world(k, ctx):
    """The ranks of this worker, kept from case to case: those of other sizes wait on their sockets."""
    from vlib.mpiworld import World
    import cosmic_profiles
    if k not in WORLDS:
        farm = os.path.dirname(os.path.dirname(os.path.abspath(cosmic_profiles.__file__)))
        try:
            WORLDS[k] = World(k, "p23", farm, ctx.tmp_root)
        except RuntimeError:
            WORLDS[k] = World(k, "p23", farm, ctx.tmp_root)
    return WORLDS[k]


def drop(k):
    w = WORLDS.pop(k, None)
    if w:
        w.close()


def prepare(spec, ctx):
    """Write the files (once, for everybody)."""
    np.random.seed(0)
    if spec["source"] == "direct":
        return
    U = gad.make_universe(spec["u"])
    if U.n[gad.TYPES[spec["type"]]] == 0:
        raise Skip
    fl, fm, _, _ = unit_setup(spec)
    V = gad.convert(U, fl, fm)
    gad.write_hdf5(V, ctx.dir("snapdir"), nfiles=spec["nsnap"], dt=np.float64, seed=2 * spec["k"] + 1)
    gad.write_groups(V, ctx.dir("groups"), nfiles=spec["ngrp"], seed=spec["k"], style=spec["k"] % 2, dt=np.float64)


def listing(d):
    """Names and contents of the text files, names of the figures."""
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            out[os.path.relpath(p, d)] = open(p).read() if f.endswith(".txt") else ""
    return out


def observe(spec, ctx, case, rank, tag="many"):
    """What a script run on every rank sees: [(label, value)]."""
    import matplotlib.figure as mf
    from mpi4py import MPI
    from cosmic_profiles import DensShapeProfs, DensShapeProfsGadget
    comm = MPI.COMM_WORLD
    fl, fm, ol, om = unit_setup(spec)
    ctx.threads(spec["threads"])
    viz, cat = os.path.join(case, tag + "-viz"), os.path.join(case, tag + "-cat")
    if spec["source"] == "direct":
        sc = gen.make_scene(spec["scene"])
        o = DensShapeProfs(sc.xyz * fl, sc.m * fm, [list(c) for c in sc.cat], sc.r200 * fl, sc.L * fl, "024", viz, cat, MIN_NUMBER_PTCS=spec["minp"], CENTER=spec["center"])
        n = sum(len(c) >= spec["minp"] for c in sc.cat)
    else:
        U = gad.make_universe(spec["u"])
        p = os.path.join(case, "snapdir", "snap_024.hdf5" if spec["nsnap"] == 1 else "snap_024")
        o = DensShapeProfsGadget(p, os.path.join(case, "groups"), spec["type"], "024", viz, cat, RVIR_OR_R200=spec["rdef"], MIN_NUMBER_PTCS=spec["minp"],
                                 CENTER=spec["center"])
        n = len(gad.centrals(U, gad.TYPES[spec["type"]], spec["minp"]))
    out = [("getIdxCat", o.getIdxCat()), ("getR200", o.getR200()), ("getXYZMasses", o.getXYZMasses())]
    o.getObjInfo()
    if spec["source"] == "gadget":
        o.getObjInfoGadget()
        out += [("getVelXYZ", o.getVelXYZ()), ("box size", np.float64(o.getHeader().boxsize))]
    if n == 0:
        return out
    rng = np.random.default_rng(spec["k"])
    sel = [int(i) for i in rng.permutation(n)[: 1 + spec["k"] % n]]
    R = np.sort(rng.uniform(0.1, 1.3, size=int(rng.integers(3, 6))))
    cfg = obj.katz_config(R, imin=5, tol=3e-2, reduced=spec["reduced"], shell=spec["shell"])
    orig = mf.Figure.savefig

    def savefig(fig, fname, *a, **k):
        with open(fname, "wb"):
            pass

    def bcast(a):  # as in the example scripts: rank 0 has the result, everybody goes on with it
        return comm.bcast(a, root=0)

    mf.Figure.savefig = savefig
    dens = None
    try:
        for what in spec["do"]:
            f = {"mass": lambda: o.getMassesCenters(sel),
                 "local": lambda: o.getShapeCatLocal(sel, cfg),
                 "global": lambda: o.getShapeCatGlobal(sel, cfg),
                 "vlocal": lambda: o.getShapeCatVelLocal(sel, cfg),
                 "vglobal": lambda: o.getShapeCatVelGlobal(sel, cfg),
                 "sph": lambda: o.estDensProfs(R, sel, direct_binning=True),
                 "ell": lambda: o.estDensProfs(R, sel, direct_binning=True, spherical=False, katz_config=cfg),
                 "kernel": lambda: o.estDensProfs(R, sel, direct_binning=False),
                 "dlocal": lambda: o.dumpShapeCatLocal(sel, cfg),
                 "dglobal": lambda: o.dumpShapeCatGlobal(sel, cfg),
                 "dvlocal": lambda: o.dumpShapeVelCatLocal(sel, cfg),
                 "dvglobal": lambda: o.dumpShapeVelCatGlobal(sel, cfg),
                 "peps": lambda: o.plotGlobalEpsHist(4, sel),
                 "pleps": lambda: o.plotLocalEpsHist(0.7, 4, sel),
                 "pt": lambda: o.plotGlobalTHist(4, sel, cfg),
                 "plt": lambda: o.plotLocalTHist(4, 0.5, sel, cfg),
                 "pshape": lambda: o.plotShapeProfs(2, sel, cfg),
                 "viz": lambda: o.vizLocalShapes(sel, cfg),
                 "vizg": lambda: o.vizGlobalShapes(sel, cfg),
                 "fit": lambda: o.fitDensProfs(dens.copy(), R, {"profile": "nfw"}, sel),
                 "conc": lambda: o.estConcentrations(dens.copy(), R, {"profile": "nfw"}, sel),
                 "pdens": lambda: o.plotDensProfs(dens.copy(), R, dens.copy(), R, {"profile": "nfw"}, 2, sel)}.get(what)
            if spec["source"] == "direct" and what.startswith(("vl", "vg", "dv")):
                continue
            if what in ("fit", "conc", "pdens") and dens is None:
                dens = bcast(o.estDensProfs(R, sel, direct_binning=False))
            out.append((what, f()))
    finally:
        mf.Figure.savefig = orig
    comm.Barrier()
    if rank == 0:
        out.append(("files in the catalogue folder", listing(cat)))
        out.append(("files in the figure folder", sorted(listing(viz))))
    return out


def compare(a, b, what):
    if isinstance(b, tuple):
        if not isinstance(a, tuple) or len(a) != len(b):
            raise Violation("%s: %r, in a single process %r" % (what, a, b))
        for i, (x, y) in enumerate(zip(a, b)):
            compare(x, y, "%s[%d]" % (what, i))
    elif isinstance(b, (dict, list)) or b is None:
        if isinstance(b, list) and len(b) and not isinstance(b[0], str):
            return same(a, b, what)
        if type(a) is not type(b) or a != b:
            raise Violation("%s: %s, in a single process %s" % (what, str(a)[:300], str(b)[:300]))
    else:
        same(a, b, what)


def run_ranks(spec, ctx):
    prepare(spec, ctx)
    k = spec["ranks"]
    try:
        alone = observe(spec, ctx, ctx.tmp, 0, "one")
    except Exception as e:  # the business of other properties
        raise Skip(str(e))
    res = world(k, ctx).run(spec, ctx.tmp, TIMEOUT)
    if all(r[0] in ("ok", "none") for r in res) and any(r[0] == "none" for r in res):
        # Once more in a fresh world, with the folders as they were, in case the machine was merely busy.
        drop(k)
        for d in ("many-viz", "many-cat"):
            shutil.rmtree(os.path.join(ctx.tmp, d), True)
        res = world(k, ctx).run(spec, ctx.tmp, TIMEOUT)
    if any(r[0] != "ok" for r in res):
        drop(k)
        texts = ["rank %d of %d: %s %s" % (i, k, {"ok": "finished", "raised": "raised", "none": "no answer (hangs)", "died": "died"}[r[0]], r[1] if r[0] == "raised" else "")
                 for i, r in enumerate(res)]
        raise Violation("a single process finishes; " + "; ".join(texts)[:1500])
    got = res[0][1]
    if [g[0] for g in got] != [a[0] for a in alone]:
        raise Violation("rank 0 of %d saw other objects than a single process" % k)
    for (what, x), (_, y) in zip(got, alone):
        compare(x, y, "%s on rank 0 of %d" % (what, k))
    return len(alone) > 3


CALLS = ["mass", "local", "global", "sph", "ell", "kernel", "dlocal", "dglobal", "peps", "pleps", "pt", "plt", "pshape", "viz", "vizg", "fit", "conc", "pdens",
         "vlocal", "vglobal", "dvlocal", "dvglobal"]
BASE = {"k": st.integers(0, 1000), "ranks": st.sampled_from([2, 3, 3, 5]), "center": st.sampled_from(["com", "mode"]), "h": st.sampled_from([0.6774, 1.0]),
        "inl": st.sampled_from(gen.LENGTHS), "inm": st.sampled_from(gen.MASSES), "outl": st.sampled_from(gen.LENGTHS), "outm": st.sampled_from(gen.MASSES),
        "threads": st.sampled_from([1, 2]), "minp": st.sampled_from([1, 4, 9]), "reduced": st.booleans(), "shell": st.booleans()}
SUBS = [
    Sub("catalogue-files", st.fixed_dictionaries(dict(
        BASE, source=st.just("gadget"), u=gad.universe_strategy((1, 9), 30), nsnap=st.sampled_from([1, 3]), ngrp=st.integers(1, 12),
        type=st.sampled_from(["dm", "stars", "gas"]), rdef=st.sampled_from(["Rvir", "R200"]), do=st.just(["mass"]))), run_ranks, quick=800, weight=1.5),
    Sub("analysis", st.fixed_dictionaries(dict(
        BASE, source=st.just("gadget"), u=gad.universe_strategy((1, 4), 60), nsnap=st.sampled_from([1, 3]), ngrp=st.integers(1, 6),
        type=st.sampled_from(["dm", "stars", "gas"]), rdef=st.sampled_from(["Rvir", "R200"]),
        do=st.lists(st.sampled_from(CALLS), min_size=1, max_size=4))), run_ranks, quick=300, weight=1.5),
    Sub("direct", st.fixed_dictionaries(dict(
        BASE, source=st.just("direct"), scene=gen.scene_strategy(nobj=(1, 4), nmin=3, nmax=80),
        do=st.lists(st.sampled_from(CALLS[:18]), min_size=1, max_size=4))), run_ranks, quick=300),
]
