"""Driving the public classes from generated scenes."""
import numpy as np

from .core import call
from . import gen


def direct(sc, ctx, center="com", minp=1, cat=None, r200=None, xyz=None, m=None, L=None, snap="024", viz=None, catdir=None, aslist=True):
    from cosmic_profiles import DensShapeProfs
    if viz is None:
        viz = ctx.dir("viz")
    if catdir is None:
        catdir = ctx.dir("cat")
    return call("DensShapeProfs()", DensShapeProfs, sc.xyz if xyz is None else xyz, sc.m if m is None else m,
                sc.cat if cat is None else cat, sc.r200 if r200 is None else r200, sc.L if L is None else L, snap,
                viz, catdir, MIN_NUMBER_PTCS=minp, CENTER=center)


def katz_config(R, tol=1e-2, wall=100, imin=10, reduced=False, shell=False):
    return {"ROverR200": np.float64(R), "IT_TOL": tol, "IT_WALL": wall, "IT_MIN": imin, "REDUCED": reduced, "SHELL_BASED": shell}


def units(inl="Mpc/h", inm="E+10Msun/h", outl="Mpc/h", outm="E+10Msun/h", h=0.6774, inv="km/s", outv="km/s"):
    """-> (In length, In mass, Out length, Out mass) in cm and g, after switching the package to them."""
    from cosmic_profiles.common import config
    call("updateInUnitSystem", config.updateInUnitSystem, inl, inm, inv, h)
    call("updateOutUnitSystem", config.updateOutUnitSystem, outl, outm, outv, h)
    return gen.length_cm(inl, h), gen.mass_g(inm, h), gen.length_cm(outl, h), gen.mass_g(outm, h)
