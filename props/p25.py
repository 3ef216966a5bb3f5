"""Damaged or incomplete snapshots: refused, never misread."""
import os
import shutil
import struct

import h5py
import numpy as np
from hypothesis import strategies as st

from props.p16 import unit_setup, vel_units
from vlib import gad, gen
from vlib.core import Skip, Sub, Violation, describe

RULE = "a case counts when the damaged set of files was actually read from (at least one block asked for) and the particle type read has two or more particles"

BLOCKS = ["POS ", "VEL ", "MASS", "ID  "]


def outcome(what, fn, *a, **k):
    """-> the result, or None when refused with an error (which a script notices)."""
    try:
        return fn(*a, **k)
    except SystemExit as e:
        if e.code in (None, 0):
            raise Violation("%s ended the process with the exit status of a success" % what)
        return None
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception:
        return None


def cut(fn, spec, marks):
    """Truncate: anywhere, or next to one of the interesting offsets."""
    size = os.path.getsize(fn)
    if spec["near"] and marks:
        at = marks[spec["where"] % len(marks)] + spec["delta"]
    else:
        at = int(spec["frac"] * size)
    at = min(max(at, 0), size - 1)
    with open(fn, "r+b") as f:
        f.truncate(at)
    return "cut to %d of %d bytes" % (at, size)


def blocks_of(fn, fmt, big):
    """[(offset of the leading size marker, size)] of a well-formed binary."""
    e = ">" if big else "<"
    out = []
    with open(fn, "rb") as f:
        b = f.read()
    p = 0
    while p < len(b):
        if fmt == 2:
            p += 16
        n = struct.unpack(e + "I", b[p:p + 4])[0]
        out.append((p, n))
        p += 8 + n
    return out


def damage_binary(spec, files, fmt, V, ctx, t):
    fn = files[spec["which"] % len(files)]
    big = spec["big"]
    e = ">" if big else "<"
    bl = blocks_of(fn, fmt, big)
    kind = spec["kind"]
    if kind == "cut":
        marks = []
        for p, n in bl[1:]:
            marks += [p, p + 4, p + 4 + n, p + 4 + n // 2]
            marks += [p + 4 + w * i for w in (4, 8, 12, 24) for i in (1, 2) if w * i <= n]
        return cut(fn, spec, marks)
    if kind == "marker":
        p, n = bl[spec["where"] % len(bl)]
        tail = spec["near"] and spec["where"] % len(bl) < len(bl) - 1
        new = n + [1, 4, 12, -4, 24, 1 << 20][spec["delta"] % 6]
        if new < 0 or new in (2 * n, n // 2):
            raise Skip
        if tail:
            p += 4 + n
        with open(fn, "r+b") as f:
            f.seek(p)
            f.write(struct.pack(e + "I", new))
        # The marker behind the last block read is not looked at, nor needs it be: the data are exact then.
        return "%s marker of block %d says %d instead of %d" % ("trailing" if tail else "leading", spec["where"] % len(bl), new, n)
    if kind == "count":
        p = bl[0][0] + 4
        with open(fn, "r+b") as f:
            off, name = ((p + 4 * t, "here") if spec["near"] else (p + 96 + 4 * t, "in total"))
            f.seek(off)
            old = struct.unpack(e + "I", f.read(4))[0]
            new = old + (1 + spec["where"] % 3) * (1 if spec["delta"] % 2 or old < 4 else -1)
            f.seek(off)
            f.write(struct.pack(e + "I", new))
        return "header says %d particles %s instead of %d" % (new, name, old)
    raise Skip


def damage_hdf5(spec, files, V, ctx, t):
    fn = files[spec["which"] % len(files)]
    kind = spec["kind"]
    if kind == "cut":
        return cut(fn, spec, [])
    with h5py.File(fn, "r+") as f:
        g = "PartType%d" % t
        if kind == "marker":  # a data set is missing, or shorter than the header says
            names = [n for n in ("Coordinates", "Velocities", "ParticleIDs", "Masses") if g in f and n in f[g]]
            if not names:
                raise Skip
            n = names[spec["where"] % len(names)]
            x = f[g][n][:]
            del f[g][n]
            if spec["near"]:
                k = [1, 0, len(x) - 1, len(x) // 2][spec["delta"] % 4]
                if k == len(x):
                    raise Skip
                f[g][n] = x[:k]
                return "%s holds %d of %d particles" % (n, k, len(x))
            return "%s is missing" % n
        if kind == "count":
            at = "NumPart_ThisFile" if spec["near"] else "NumPart_Total"
            x = f["Header"].attrs[at]
            old = int(x[t])
            x[t] = old + (1 + spec["where"] % 3) * (1 if spec["delta"] % 2 or old < 4 else -1)
            f["Header"].attrs[at] = x
            return "header says %s = %d instead of %d" % (at, x[t], old)
    raise Skip


def run(spec, ctx):
    from cosmic_profiles.gadget import readgadget
    U = gad.make_universe(spec["u"])
    fl, fm, ol, om = unit_setup(spec)
    V = gad.convert(U, fl, fm, 1.0)
    t = gad.TYPES[spec["type"]]
    if U.n[t] < 2:
        raise Skip
    d = ctx.dir("snapdir")
    hdf = spec["format"].startswith("hdf5")
    fmt = 2 if "2" in spec["format"].split("-")[0] else 1
    nf = spec["nfiles"] if spec["format"].endswith("multi") else 1
    dt = np.float64 if spec["double"] else np.float32

    def write(W, d, seed):
        if hdf:
            return gad.write_hdf5(W, d, nfiles=nf, dt=dt, seed=seed, omit_empty=spec["omit"])
        return gad.write_binary(W, d, fmt=fmt, nfiles=nf, dt=dt, big=spec["big"], seed=seed)
    p = write(V, d, spec["k"])
    if p is None:
        raise Skip
    whole = {b: np.array(readgadget.read_block(p, b, [t])) for b in BLOCKS}
    for b, truth in zip(BLOCKS, (U.pos[t], U.vel[t], U.mass[t], U.ids[t])):
        if not np.allclose(np.asarray(whole[b], float), np.asarray(truth, float), rtol=1e-5, atol=1e-3):
            raise Violation("%s of an undamaged snapshot is misread" % b)
    files = sorted(os.path.join(d, f) for f in os.listdir(d))
    kind = spec["kind"]
    if kind in ("lost", "foreign") and nf == 1:
        raise Skip
    if kind == "lost":
        fn = files[spec["which"] % nf]
        os.remove(fn)
        what = "%s is missing" % os.path.basename(fn)
    elif kind == "empty":
        fn = files[spec["which"] % nf]
        open(fn, "wb").close()
        what = "%s is empty" % os.path.basename(fn)
    elif kind == "foreign":  # one file of the set comes from elsewhere: another cut of the same particles
        e = ctx.dir("other")
        write(V, e, spec["k"] + 1 + spec["where"] % 3)
        i = spec["which"] % nf
        fn = files[i]
        src = sorted(os.path.join(e, f) for f in os.listdir(e))[i]
        n0, n1 = (readgadget.header(f).npart[t] for f in (fn, src))
        if n0 == n1:
            raise Skip
        shutil.copy(src, fn)
        what = "%s holds %d particles instead of %d" % (os.path.basename(fn), n1, n0)
    else:
        what = damage_hdf5(spec, files, V, ctx, t) if hdf else damage_binary(spec, files, fmt, V, ctx, t)
    for b in [BLOCKS[i] for i in np.random.default_rng(spec["k"]).permutation(4)]:
        got = outcome("read_block(%r) of a %s snapshot of which %s" % (b, spec["format"], what), readgadget.read_block, p, b, [t])
        if got is None:
            continue
        got = np.asarray(got)
        if got.shape != whole[b].shape or not np.array_equal(got, whole[b], equal_nan=got.dtype.kind == "f"):
            # Masses of equal particles come from the header alone.
            if kind == "count" and b == "MASS" and U.mt[t] != 0 and np.all(got == whole[b][0]):
                continue
            bad = "shape %s instead of %s" % (got.shape, whole[b].shape) if got.shape != whole[b].shape else "first at %d: %s instead of %s" % (
                next((i, got[i], whole[b][i]) for i in range(len(got)) if not np.array_equal(got[i], whole[b][i])))
            raise Violation("read_block(%r) of particle type %d of a %s snapshot of which %s returned other data (%s) instead of raising an error" % (
                b, t, spec["format"], what, bad))
    return True


SUBS = [
    Sub("damaged", st.fixed_dictionaries({
        "u": gad.universe_strategy((1, 4), 30), "k": st.integers(0, 1000),
        "format": st.sampled_from(["hdf5", "hdf5-multi", "gadget1", "gadget2", "gadget1-multi", "gadget2-multi"]), "double": st.booleans(), "big": st.booleans(),
        "omit": st.booleans(), "nfiles": st.integers(2, 4), "type": st.sampled_from(["dm", "stars", "gas"]), "h": st.just(0.6774),
        "inl": st.sampled_from(["Mpc/h", "kpc"]), "inm": st.sampled_from(["E+10Msun/h", "Msun"]), "outl": st.just("Mpc/h"), "outm": st.just("E+10Msun/h"),
        "kind": st.sampled_from(["cut", "cut", "cut", "marker", "count", "lost", "empty", "foreign"]), "which": st.integers(0, 3), "near": st.booleans(),
        "where": st.integers(0, 60), "delta": st.integers(-1, 6).map(int), "frac": st.floats(0, 1, exclude_max=True)}), run, quick=2500),
]
