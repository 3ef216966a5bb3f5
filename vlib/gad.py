"""Synthetic Gadget snapshots (HDF5, format I and II binaries) and FoF/subhalo group files, with the truth beside them."""
import os
import struct

import h5py
import numpy as np
from hypothesis import strategies as st

from . import gen

TYPES = {"gas": 0, "dm": 1, "stars": 4}


def universe_strategy(ngroups=(1, 5), nmax=90, vel=True):
    """Groups with subhalos; the particle counts per type."""
    sub = st.fixed_dictionaries({
        "n": st.lists(gen.often(st.one_of(st.integers(0, nmax), st.integers(0, 6)).map(int), st.integers(nmax, max(1200, 4 * nmax)), 23), min_size=3, max_size=3),
        "o": gen.obj_strategy(1, 1, rmax=0.22)})
    group = st.fixed_dictionaries({"subs": gen.often(st.lists(sub, min_size=0, max_size=3), st.lists(sub, min_size=4, max_size=9), 15), "fuzz": st.lists(st.integers(0, 8), min_size=3, max_size=3)})
    return st.fixed_dictionaries({
        "seed": gen.SEED,
        "L": st.sampled_from([1.0, 25.0, 100.0]),
        "groups": gen.often(st.lists(group, min_size=ngroups[0], max_size=ngroups[1]),
                            st.lists(group, min_size=ngroups[1], max_size=3 * ngroups[1] + 6), 19),
        "z": st.sampled_from([0.0, 0.0, 1.0, 3.5]),
        "mt": st.booleans(),
        "loose": st.integers(0, 10),
        "idlen": st.sampled_from([32, 32, 33, 64]),
        "vbulk": gen.fl(0.0, 300.0),
    })


class Universe:
    """pos/vel/mass[type] (positions in Mpc/h, masses in 1e10 Msun/h, peculiar velocities in km/s), fof_len, sub_len, nsubs, r_th, r_mean."""


def make_universe(u):
    rng = np.random.default_rng(u["seed"])
    U = Universe()
    L = U.L = u["L"]
    U.z, U.a = u["z"], 1.0 / (1.0 + u["z"])
    pos, vel, mass = {}, {}, {}
    for t in (0, 1, 4):
        pos[t], vel[t], mass[t] = [], [], []
    U.fof_len, U.sub_len, U.nsubs = [], [], []
    U.r_th, U.r_mean = [], []
    for g in u["groups"]:
        U.nsubs.append(len(g["subs"]))
        tot = np.zeros(6, int)
        for k, s in enumerate(g["subs"]):
            row = np.zeros(6, int)
            rot = gen.rotation(rng)
            bulk = rng.normal(size=3) * u["vbulk"]
            for j, t in enumerate((0, 1, 4)):
                n = s["n"][j]
                row[t] = n
                o = dict(s["o"], n=n)
                x = gen.cloud(o, rng, o["r"] * L) + np.array(o["pos"]) * L
                pos[t].append(np.mod(x, L))
                vel[t].append(rng.normal(size=(n, 3)) * np.array([120.0, 80.0, 50.0]) @ rot.T + bulk)
                mass[t].append(rng.uniform(0.2, 2.0, size=n))
            U.sub_len.append(row)
            tot += row
        for j, t in enumerate((0, 1, 4)):
            n = g["fuzz"][j]
            tot[t] += n
            pos[t].append(rng.uniform(size=(n, 3)) * L)
            vel[t].append(rng.normal(size=(n, 3)) * 100)
            mass[t].append(rng.uniform(0.2, 2.0, size=n))
        U.fof_len.append(tot)
        size = (g["subs"][0]["o"]["r"] * g["subs"][0]["o"]["r200"] * L) if g["subs"] else 0.0
        U.r_th.append(size)
        U.r_mean.append(size * 1.37)
    for t in (0, 1, 4):
        n = u["loose"]
        pos[t].append(rng.uniform(size=(n, 3)) * L)
        vel[t].append(rng.normal(size=(n, 3)) * 100)
        mass[t].append(rng.uniform(0.2, 2.0, size=n))
    U.pos = {t: np.concatenate(pos[t]) for t in pos}
    for t in pos:
        U.pos[t][U.pos[t] >= L] = 0.0
    U.vel = {t: np.concatenate(vel[t]) for t in vel}
    U.mass = {t: np.concatenate(mass[t]) for t in mass}
    bits = u.get("idlen", 32)
    U.idlen = 32 if bits == 32 else 64
    tot = sum(len(U.pos[t]) for t in pos)
    ids = np.arange(tot, dtype=np.uint64) * np.uint64((1 << (31 if bits == 32 else 36 if bits == 33 else 62)) // max(tot, 1)) + np.uint64(u["seed"] % 5)
    ids = ids[np.random.default_rng(u["seed"] + 1).permutation(tot)]
    cut = np.cumsum([0] + [len(U.pos[t]) for t in (0, 1, 4)])
    U.ids = {t: ids[cut[j]:cut[j + 1]] for j, t in enumerate((0, 1, 4))}
    U.mt = np.zeros(6)
    if u["mt"]:
        U.mt[1] = 0.4375
        U.mass[1][:] = U.mt[1]
    # Types nobody analyses, which lie in between in binary files.
    rx = np.random.default_rng(u["seed"] + 2)
    for t in (2, 3, 5):
        n = int(rx.integers(0, 7)) if rx.integers(3) == 0 else 0
        U.pos[t], U.vel[t], U.mass[t] = rx.uniform(size=(n, 3)) * L, rx.normal(size=(n, 3)) * 100, rx.uniform(0.2, 2.0, size=n)
        U.ids[t] = np.uint64(U.ids[1].max() if len(U.ids[1]) else 0) // np.uint64(2) + np.arange(n, dtype=np.uint64)
        if rx.integers(2):
            U.mt[t] = 0.875 + t / 16
            U.mass[t][:] = U.mt[t]
    ry = np.random.default_rng(u["seed"] + 3)
    for t, v in ((0, 0.75), (4, 0.625)):
        if ry.integers(4) == 0:
            U.mt[t] = v
            U.mass[t][:] = v
    U.n = np.zeros(6, int)
    for t in U.pos:
        U.n[t] = len(U.pos[t])
    U.sub_len = np.array(U.sub_len, dtype=int).reshape(-1, 6)
    U.fof_len = np.array(U.fof_len, dtype=int).reshape(-1, 6)
    U.nsubs = np.array(U.nsubs, dtype=int)
    U.r_th, U.r_mean = np.array(U.r_th), np.array(U.r_mean)
    return U


def convert(U, fl, fm, fv=1.0):
    """Round to what single-precision files hold, in the file's units (fl, fm: file units per Mpc/h, 1e10 Msun/h)."""
    V = Universe()
    V.__dict__.update(U.__dict__)
    V.pos = {t: U.pos[t] * fl for t in U.pos}
    V.vel = {t: U.vel[t] * fv for t in U.vel}
    V.mass = {t: U.mass[t] * fm for t in U.mass}
    V.mt = U.mt * fm
    V.L = U.L * fl
    V.r_th, V.r_mean = U.r_th * fl, U.r_mean * fl
    return V


def _header(V, npart, nfiles):
    return {"Time": V.a, "Redshift": V.z, "BoxSize": V.L, "NumFilesPerSnapshot": nfiles, "Omega0": 0.31, "OmegaLambda": 0.69,
            "HubbleParam": 0.6774, "MassTable": V.mt, "NumPart_ThisFile": np.array(npart, dtype=np.int32),
            "NumPart_Total": np.array(V.n, dtype=np.uint32), "Flag_Cooling": 0}


def split(n, k, rng):
    """Cut n items in k consecutive pieces (some may be empty)."""
    c = np.sort(rng.integers(0, n + 1, size=k - 1))
    return list(zip(np.hstack(([0], c)), np.hstack((c, [n]))))


def write_hdf5(V, d, nfiles=1, dt=np.float64, seed=0, omit_empty=True, name="snap_024"):
    """-> the path to hand to the package."""
    rng = np.random.default_rng(seed)
    cuts = {t: split(int(V.n[t]), nfiles, rng) if nfiles > 1 else [(0, int(V.n[t]))] for t in sorted(V.pos)}
    idt = np.uint32 if getattr(V, "idlen", 64) == 32 else np.uint64
    vids = getattr(V, "ids", None) or {t: np.arange(len(V.pos[t])) for t in sorted(V.pos)}
    for i in range(nfiles):
        fn = os.path.join(d, name + (".%d.hdf5" % i if nfiles > 1 else ".hdf5"))
        with h5py.File(fn, "w") as f:
            npart = np.zeros(6, int)
            for t in sorted(V.pos):
                a, b = cuts[t][i]
                npart[t] = b - a
            h = f.create_group("Header")
            for k, v in _header(V, npart, nfiles).items():
                h.attrs[k] = v
            for t in sorted(V.pos):
                a, b = cuts[t][i]
                if a == b and omit_empty and nfiles > 1:
                    continue
                g = f.create_group("PartType%d" % t)
                g["Coordinates"] = V.pos[t][a:b].astype(dt)
                g["Velocities"] = (V.vel[t][a:b] / np.sqrt(V.a)).astype(dt)
                g["ParticleIDs"] = vids[t][a:b].astype(idt)
                if V.mt[t] == 0:
                    g["Masses"] = V.mass[t][a:b].astype(dt)
    return os.path.join(d, name + ".hdf5" if nfiles == 1 and seed % 2 else name)


def write_binary(V, d, fmt=1, nfiles=1, dt=np.float32, big=False, seed=0, name="snap_024"):
    rng = np.random.default_rng(seed)
    e = ">" if big else "<"
    cuts = {t: split(int(V.n[t]), nfiles, rng) if nfiles > 1 else [(0, int(V.n[t]))] for t in sorted(V.pos)}
    idt = np.dtype(np.uint32 if getattr(V, "idlen", 32) == 32 else np.uint64).newbyteorder(e)
    vids = getattr(V, "ids", None) or {t: np.arange(len(V.pos[t])) for t in sorted(V.pos)}
    for i in range(nfiles):
        fn = os.path.join(d, name + (".%d" % i if nfiles > 1 else ""))
        npart = np.zeros(6, int)
        for t in sorted(V.pos):
            npart[t] = cuts[t][i][1] - cuts[t][i][0]
        with open(fn, "wb") as f:
            def block(label, data):
                if fmt == 2:
                    f.write(struct.pack(e + "i", 8) + label + struct.pack(e + "i", len(data) + 8) + struct.pack(e + "i", 8))
                f.write(struct.pack(e + "i", len(data)) + data + struct.pack(e + "i", len(data)))
            h = np.asarray(npart, dtype=e + "i4").tobytes() + np.asarray(V.mt, dtype=e + "f8").tobytes()
            h += struct.pack(e + "ddii", V.a, V.z, 0, 0) + np.asarray(V.n, dtype=e + "u4").tobytes() + struct.pack(e + "ii", 0, nfiles)
            h += struct.pack(e + "dddd", V.L, 0.31, 0.69, 0.6774)
            block(b"HEAD", h + b"\0" * (256 - len(h)))
            sl = [(t,) + tuple(cuts[t][i]) for t in sorted(V.pos)]
            D = np.dtype(dt).newbyteorder(e)
            fv = 1.0 if V.z == 0 else 1 / np.sqrt(V.a)
            block(b"POS ", np.concatenate([V.pos[t][a:b] for t, a, b in sl]).astype(D).tobytes())
            block(b"VEL ", np.concatenate([V.vel[t][a:b] * fv for t, a, b in sl]).astype(D).tobytes())
            block(b"ID  ", np.concatenate([vids[t][a:b] for t, a, b in sl]).astype(idt).tobytes())
            ms = np.concatenate([V.mass[t][a:b] for t, a, b in sl if V.mt[t] == 0] + [np.zeros(0)])
            if len(ms) or seed % 3:  # Gadget leaves the block out of files without particles of their own mass
                block(b"MASS", ms.astype(D).tobytes())
    return os.path.join(d, name)


def write_groups(V, d, nfiles=1, seed=0, dt=np.float32, style=0):
    """fof_subhalo_tab files; groups and subhalos are cut independently, as in Arepo output."""
    rng = np.random.default_rng(seed)
    ng, ns = len(V.nsubs), len(V.sub_len)
    cg = split(ng, nfiles, rng) if nfiles > 1 else [(0, ng)]
    cs = split(ns, nfiles, rng) if nfiles > 1 else [(0, ns)]
    for i in range(nfiles):
        fn = "fof_subhalo_tab_024.%d.hdf5" % i if style == 0 else "groups_024.%d.hdf5" % i
        with h5py.File(os.path.join(d, fn), "w") as f:
            f.create_group("Header")
            a, b = cg[i]
            g = f.create_group("Group")
            if b > a or nfiles == 1:
                g["GroupLenType"] = V.fof_len[a:b].astype(np.int32)
                g["GroupNsubs"] = V.nsubs[a:b].astype(np.int32)
                g["Group_R_TopHat200"] = V.r_th[a:b].astype(dt)
                g["Group_R_Mean200"] = V.r_mean[a:b].astype(dt)
            a, b = cs[i]
            g = f.create_group("Subhalo")
            if b > a:
                g["SubhaloLenType"] = V.sub_len[a:b].astype(np.int32)
    return d


def centrals(U, ptype, minp):
    """[(group number, first particle, number)] of the central subhalos with enough particles."""
    out = []
    start = isub = 0
    for g in range(len(U.nsubs)):
        if U.nsubs[g] > 0:
            n = int(U.sub_len[isub][ptype])
            if n >= minp:
                out.append((g, start, n))
        isub += int(U.nsubs[g])
        start += int(U.fof_len[g][ptype])
    return out
