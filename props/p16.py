"""Reading Gadget snapshots."""
import numpy as np
from hypothesis import strategies as st

from vlib import gad, gen, obj, ref
from vlib.core import Skip, Sub, Violation, call, check, close, expect_raises

RULE = "a case counts when the particle type read has three or more particles"

FORMATS = ["hdf5", "hdf5", "hdf5-multi", "hdf5-multi", "gadget1", "gadget2", "gadget1-multi", "gadget2-multi"]


def write(V, ctx, spec):
    d = ctx.dir("snapdir")
    f = spec["format"]
    dt = np.float64 if spec["double"] else np.float32
    nf = spec["nfiles"] if f.endswith("multi") else 1
    if f.startswith("hdf5"):
        return gad.write_hdf5(V, d, nfiles=nf, dt=dt, seed=spec["k"], omit_empty=spec["omit"])
    p = gad.write_binary(V, d, fmt=1 if "1" in f.split("-")[0] else 2, nfiles=nf, dt=dt, big=spec["big"], seed=spec["k"])
    if p is None:
        raise Skip("too few particles to spread")
    return p


def unit_setup(spec, h=None):
    h = spec["h"] if h is None else h
    lin, min_, lout, mout = obj.units(spec["inl"], spec["inm"], spec["outl"], spec["outm"], h, spec.get("inv", "km/s"), spec.get("outv", "km/s"))
    il, im = gen.length_cm("Mpc/h", h), gen.mass_g("E+10Msun/h", h)
    return il / lin, im / min_, il / lout, im / mout


def vel_units(spec):
    """-> file units per km/s, Out units per km/s"""
    return tuple(1e5 / (1e5 if v == "km/s" else v) for v in (spec.get("inv", "km/s"), spec.get("outv", "km/s")))


def run_read(spec, ctx):
    U = gad.make_universe(spec["u"])
    fl, fm, ol, om = unit_setup(spec)
    fv, ov = vel_units(spec)
    V = gad.convert(U, fl, fm, fv)
    from cosmic_profiles.gadget import readgadget
    p = write(V, ctx, spec)
    t = gad.TYPES[spec["type"]]
    if U.n[t] == 0:
        raise Skip
    rt = 1e-9 if spec["double"] else 2e-6
    for block, want in (("POS ", U.pos[t]), ("MASS", U.mass[t]), ("VEL ", U.vel[t])):
        got = call("read_block(%r) of a %s snapshot" % (block, spec["format"]), readgadget.read_block, p, block, [t])
        close(got, want, rtol=max(rt, 1e-6), atol=1e-6 * np.abs(want).max(), what="%s of particle type %d (%s)" % (block.strip(), t, spec["format"]))
    got = np.asarray(call("read_block('ID  ') of a %s snapshot" % spec["format"], readgadget.read_block, p, "ID  ", [t]))
    check(got.shape == U.ids[t].shape and all(int(a) == int(b) for a, b in zip(got, U.ids[t])),
          "identifiers of particle type %d (%s): got %s, written %s" % (t, spec["format"], got[:4], U.ids[t][:4]))
    # Several types at once: in the order asked for.
    ts = [x for x in (4, 0, 1) if U.n[x] > 0]
    ts = (ts if spec["k"] % 2 else ts[::-1])[: 1 + spec["k"] % 3]
    block, want = (("POS ", U.pos), ("MASS", U.mass), ("VEL ", U.vel), ("ID  ", U.ids))[spec["k"] // 3 % 4]
    got = call("read_block(%r) of types %s" % (block, ts), readgadget.read_block, p, block, ts)
    want = np.concatenate([want[x] for x in ts]).astype(float)
    close(np.asarray(got, float), want, rtol=1e-6, atol=1e-6 * np.abs(want).max(), what="%s of particle types %s (%s)" % (block.strip(), ts, spec["format"]))
    hd = call("header()", readgadget.header, p)
    close(hd.boxsize, V.L, what="header box size")
    close(hd.redshift, U.z, what="header redshift")
    close(hd.time, U.a, what="header time")
    close([hd.omega_m, hd.omega_l, hd.hubble], [0.31, 0.69, 0.6774], what="header cosmology")
    close(np.asarray(hd.nall, float), U.n.astype(float), what="header total particle numbers")
    close(np.asarray(hd.massarr, float), V.mt, rtol=1e-12, what="header mass table")
    check(int(hd.filenum) == (spec["nfiles"] if spec["format"].endswith("multi") else 1), "header number of files %s" % hd.filenum)
    close(hd.Hubble, 100 * np.sqrt(0.31 * (1 + U.z) ** 3 + 0.69), rtol=1e-9, what="header H(z)")
    if not spec["format"].endswith("multi"):
        close(np.asarray(hd.npart, float), U.n.astype(float), what="header particle numbers of the file")
    return int(U.n[t]) >= 3


def run_class(spec, ctx):
    """Through the class: positions, masses, velocities in Out units; box size; header."""
    from cosmic_profiles import DensShapeProfsGadget
    U = gad.make_universe(spec["u"])
    fl, fm, ol, om = unit_setup(spec)
    fv, ov = vel_units(spec)
    V = gad.convert(U, fl, fm, fv)
    t = gad.TYPES[spec["type"]]
    if U.n[t] == 0 or not gad.centrals(U, t, 3):
        raise Skip
    p = write(V, ctx, spec)
    g = gad.write_groups(V, ctx.dir("groups"), nfiles=1 + spec["k"] % 3, seed=spec["k"])
    o = call("DensShapeProfsGadget()", DensShapeProfsGadget, p, g, spec["type"], "024", ctx.dir("viz"), ctx.dir("cat"), MIN_NUMBER_PTCS=3,
             CENTER="com")
    xyz, m = call("getXYZMasses", o.getXYZMasses)
    v = call("getVelXYZ", o.getVelXYZ)
    close(xyz, U.pos[t] * ol, rtol=2e-6, atol=2e-6 * U.L * ol, what="getXYZMasses: positions (%s)" % spec["format"])
    close(m, U.mass[t] * om, rtol=2e-6, what="getXYZMasses: masses (%s)" % spec["format"])
    close(v, U.vel[t] * ov, rtol=2e-6, atol=1e-3 * ov, what="getVelXYZ (%s)" % spec["format"])
    hd = call("getHeader", o.getHeader)
    close(hd.boxsize, V.L, what="getHeader: box size")
    return int(U.n[t]) >= 3


# Blocks of the binary readers: particle types holding them, shape, kind; their order in format 1 (see readsnap.read_block).
BLOCKS = {"POS ": ("012345", 3, "f"), "VEL ": ("012345", 3, "f"), "ID  ": ("012345", 0, "u"), "MASS": ("", 0, "f"), "ACCE": ("012345", 3, "f"), "U   ": ("0", 0, "f"), "RHO ": ("0", 0, "f"),
          "VOL ": ("0", 0, "f"), "CMCE": ("0", 3, "f"), "AREA": ("0", 0, "f"), "NFAC": ("0", 0, "i"), "NE  ": ("0", 0, "f"), "NH  ": ("0", 0, "f"), "HSML": ("0", 0, "f"), "SFR ": ("0", 0, "f"),
          "MHI ": ("0", 0, "f"), "TEMP": ("0", 0, "f"), "AGE ": ("4", 0, "f"), "Z   ": ("04", 0, "f"), "BHMA": ("5", 0, "f"), "BHMD": ("5", 0, "f")}
LAYOUTS = [(["U   ", "RHO ", "NE  ", "NH  ", "HSML", "SFR ", "AGE ", "Z   ", "BHMA", "BHMD"], 0), (["U   ", "RHO ", "NE  ", "NH  ", "HSML", "SFR ", "MHI ", "TEMP"], 0),
           (["U   ", "RHO ", "VOL ", "NE  ", "NH  ", "HSML", "SFR ", "AGE ", "Z   ", "BHMA", "BHMD"], 1),
           (["U   ", "RHO ", "VOL ", "CMCE", "AREA", "NFAC", "NE  ", "NH  ", "HSML", "SFR ", "AGE ", "Z   ", "BHMA", "BHMD"], 2), (["ACCE"], 0)]


def run_blocks(spec, ctx):
    """Every block of a binary snapshot with particles of all six types, read for each type and for all at once."""
    from cosmic_profiles.gadget import readsnap
    rng = np.random.default_rng(spec["seed"])
    e = ">" if spec["big"] else "<"
    n = np.array(spec["n"])
    if n.sum() == 0:
        raise Skip
    mt = np.where([spec["mt"] >> t & 1 for t in range(6)], rng.uniform(0.1, 3, size=6), 0.0)
    order, arepo = LAYOUTS[spec["layout"]]
    own = [t for t in range(6) if mt[t] == 0]
    no_masses = spec["nomass"] and not any(n[t] for t in own)
    names = ["POS ", "VEL ", "ID  "] + ([] if no_masses or order == ["ACCE"] else ["MASS"]) + order
    if order == ["ACCE"] and any(n[t] for t in own):
        names.append("MASS")
        if spec["fmt"] == 1:
            raise Skip  # The fifth block is one or the other
    z = spec["z"]
    a = 1 / (1 + z)
    D = np.dtype(np.float64 if spec["double"] else np.float32)
    types = {b: [int(c) for c in v[0]] if b != "MASS" else own for b, v in BLOCKS.items()}
    data = {}
    for b in names:
        ts, dim, kind = BLOCKS[b]
        for t in types[b]:
            sh = (n[t], 3) if dim else (n[t],)
            if kind == "f":
                data[b, t] = rng.uniform(-5, 5, size=sh).astype(D)
            else:
                bits = spec["idlen"]
                data[b, t] = rng.integers(0, 2 ** (bits - 1) - 1, size=sh).astype({("u", 32): np.uint32, ("u", 64): np.uint64, ("i", 32): np.int32, ("i", 64): np.int64}[kind, bits])
    nf = spec["nfiles"]
    cuts = [gad.split(int(n[t]), nf, rng) if nf > 1 else [(0, int(n[t]))] for t in range(6)]
    d = ctx.dir("snapdir")
    import os
    import struct
    for i in range(nf):
        fn = os.path.join(d, "snap_024" + (".%d" % i if nf > 1 or spec["dot0"] else ""))
        npart = np.array([cuts[t][i][1] - cuts[t][i][0] for t in range(6)])
        with open(fn, "wb") as f:
            def block(label, raw):
                if spec["fmt"] == 2:
                    f.write(struct.pack(e + "i", 8) + label + struct.pack(e + "ii", len(raw) + 8, 8))
                f.write(struct.pack(e + "i", len(raw)) + raw + struct.pack(e + "i", len(raw)))
            h = npart.astype(e + "i4").tobytes() + mt.astype(e + "f8").tobytes() + struct.pack(e + "ddii", a, z, 0, 0) + n.astype(e + "u4").tobytes()
            h += struct.pack(e + "ii", 0, nf) + struct.pack(e + "dddd", 10.0, 0.3, 0.7, 0.7)
            block(b"HEAD", h + bytes(256 - len(h)))
            for b in names:
                raw = b"".join(data[b, t][slice(*cuts[t][i])].astype(data[b, t].dtype.newbyteorder(e)).tobytes() for t in types[b])
                if raw or spec["fmt"] == 1:
                    block(b.encode(), raw)
    p = os.path.join(d, "snap_024")
    kw = {"arepo": arepo, "no_masses": no_masses}
    asked = list(names) + (["MASS"] if no_masses else [])
    count = 0
    for b in [asked[k] for k in rng.permutation(len(asked))[:5]]:
        f = np.sqrt(a) if b == "VEL " and z else 1.0
        for t in [-1] + [int(x) for x in rng.permutation(6)[:3]]:
            if b == "MASS":
                want = {u: np.full(n[u], mt[u]) if mt[u] else data.get((b, u), np.zeros(0)) for u in range(6)}
            else:
                want = {u: data[b, u] for u in types[b]}
            what = "read_block(%r, parttype=%d) of a format %d snapshot in %d files" % (b, t, spec["fmt"], nf)
            if t >= 0 and t not in want:
                expect_raises(what + " without such data", Exception, readsnap.read_block, p, b, t, **kw)
                continue
            if n[list(want) if t < 0 else t].sum() == 0:
                continue
            got = call(what, readsnap.read_block, p, b, t, **kw)
            w = np.concatenate([want[u] for u in sorted(want)]) if t < 0 else want[t]
            got = np.asarray(got)
            check(got.shape == w.shape, what + ": shape %s, expected %s" % (got.shape, w.shape))
            if BLOCKS[b][2] == "f":
                close(got, w * f, rtol=3e-7 if not spec["double"] or f != 1 else 0, what=what)
            else:
                check(np.array_equal(got.astype(np.uint64), w.astype(np.uint64)), what + ": %s, written %s" % (got[:5], w[:5]))
            count += len(w) >= 3
    return count > 0


VEL = st.sampled_from(["km/s", "km/s", "km/s", 1e5, 1.0, 1e3, 3e6])
BASE = {"inv": VEL, "outv": VEL, "u": gad.universe_strategy(), "k": st.integers(0, 1000), "format": st.sampled_from(FORMATS), "double": st.booleans(), "big": st.booleans(),
        "omit": st.booleans(), "nfiles": st.integers(2, 4), "type": st.sampled_from(["dm", "stars", "gas"]), "h": st.sampled_from([0.6774, 1.0]),
        "inl": st.sampled_from(gen.LENGTHS), "inm": st.sampled_from(gen.MASSES), "outl": st.sampled_from(gen.LENGTHS), "outm": st.sampled_from(gen.MASSES)}
SUBS = [
    Sub("read-block", st.fixed_dictionaries(BASE), run_read, quick=1500, weight=1.5),
    Sub("through-the-class", st.fixed_dictionaries(BASE), run_class, quick=800),
    Sub("blocks", st.fixed_dictionaries({"seed": gen.SEED, "n": st.lists(st.one_of(st.just(0), st.integers(0, 12)), min_size=6, max_size=6), "mt": st.integers(0, 63), "fmt": st.sampled_from([1, 2]),
                                         "nfiles": st.sampled_from([1, 1, 2, 3, 5]), "dot0": st.booleans(), "big": st.booleans(), "double": st.booleans(), "idlen": st.sampled_from([32, 64]),
                                         "z": st.sampled_from([0.0, 1.0, 2.5]), "layout": st.integers(0, len(LAYOUTS) - 1), "nomass": st.booleans()}), run_blocks, quick=1500),
]
