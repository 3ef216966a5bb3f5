"""Float64 reference models, written from the documentation of the algorithms.

Every routine either answers or raises Skip("...") when the answer hinges on rounding (a particle within a relative
1e-6 of a decision boundary, an iteration within 1e-4 of its tolerance), so that single precision inside the code
under test can not cause a false alarm.
"""
import numpy as np

from .core import Skip

EDGE = 1e-6


def unwrap(x, L, ref=None):
    """Positions of one object, all moved to the periodic image next to particle 0 (or ref)."""
    x = np.asarray(x, dtype=np.float64)
    if L == 0 or len(x) == 0:
        return x.copy()
    r = x[0] if ref is None else np.asarray(ref)
    t = (x - r) / L
    if np.any(np.abs(np.abs(t - np.trunc(t)) - 0.5) < EDGE):
        raise Skip("half a box away")
    return x - L * np.round(t)


def com(x, m):
    m = np.asarray(m, dtype=np.float64)
    x0 = x.mean(axis=0)
    return x0 + ((x - x0) * (m / m.sum())[:, None]).sum(axis=0)


def mode(x, m, rad):
    """Shrinking sphere: centre of mass; keep what is closer than rad; shrink by 17 per cent until fewer than 5 are left."""
    x, m = np.asarray(x), np.asarray(m)
    while True:
        c = com(x, m)
        d = np.linalg.norm(x - c, axis=1)
        scale = np.abs(x).max() + 1e-30
        if np.any(np.abs(d - rad) <= 1e-9 * rad + 1e-12 * scale):
            raise Skip("shrinking sphere boundary")
        k = d < rad
        if k.sum() < 5:
            return c
        x, m = x[k], m[k]
        rad *= 0.83
        if rad < 1e-200:
            raise Skip("coincident particles")


def center(xu, m, how, rad=1000.0):
    if how == "com":
        return com(xu, m)
    return mode(xu, m, rad)


def extent(xu):
    return float(np.max(xu.max(axis=0) - xu.min(axis=0)))


def compact(xu, L):
    """The object spans less than half the box: its unwrapping is unique."""
    return L == 0 or extent(xu) < 0.5 * L * (1 - 1e-6)


def into_box(c, L):
    if L == 0:
        return c.copy()
    return np.where(c >= L, c - L, np.where(c < 0, c + L, c))


def rel(xu, c, L):
    """Offsets from the centre, nearest image."""
    d = xu - c
    if L > 0:
        if np.any(np.abs(np.abs(d / L) - 0.5) < EDGE):
            raise Skip("half a box away from centre")
        d = d - L * np.round(d / L)
    return d


def sph_edges(R):
    R = np.asarray(R, dtype=np.float64)
    return np.hstack(([1e-8], 0.5 * (R[:-1] + R[1:]), [R[-1]]))


def sph_profile(d, m, r200, R):
    """-> (low, high): certain and possible density per bin (they differ where a particle is at an edge)."""
    e = sph_edges(R) * r200
    dist = np.linalg.norm(d, axis=1)
    lo, hi = np.zeros(len(R)), np.zeros(len(R))
    for i in range(len(R)):
        v = 4 / 3 * np.pi * (e[i + 1] ** 3 - e[i] ** 3)
        t = EDGE
        certain = (dist >= e[i] * (1 + t)) & (dist < e[i + 1] * (1 - t))
        possible = (dist >= e[i] * (1 - t)) & (dist < e[i + 1] * (1 + t))
        with np.errstate(divide="ignore", invalid="ignore"):
            lo[i] = m[certain].sum() / v
            hi[i] = m[possible].sum() / v
    return lo, hi


def ell_edges(R):
    mid = 0.5 * (R[:-1] + R[1:])
    return np.hstack(([mid[0] ** 2 / mid[1]], mid, [R[-1]]))


def lin_extrap(x, y, xn):
    """Piecewise linear interpolation, extended linearly."""
    x, y, xn = np.asarray(x), np.asarray(y), np.asarray(xn)
    o = np.argsort(x, kind="mergesort")
    x, y = x[o], y[o]
    k = np.clip(np.searchsorted(x, xn), 1, len(x) - 1)
    s = (y[k] - y[k - 1]) / (x[k] - x[k - 1])
    return y[k - 1] + s * (xn - x[k - 1])


def ell_profile(d, m, r200, R, sd, sq, ss, major, inter, minor):
    """Ellipsoidal shells from one object's local shape profile -> (low, high, empty): densities; NaN where empty."""
    e = ell_edges(np.asarray(R, dtype=np.float64)) * r200
    rr = np.asarray(R, dtype=np.float64) * r200
    a = lin_extrap(sd, sd, e)
    b = lin_extrap(sd, sd * sq, e)
    c = lin_extrap(sd, sd * ss, e)
    ax = []
    for v in (major, inter, minor):
        w = np.stack([lin_extrap(sd, v[:, k], rr) for k in range(3)], axis=1)
        n = np.linalg.norm(w, axis=1)
        if np.any(n < 1e-3):
            raise Skip("interpolated axis vanishes")
        ax.append(w / n[:, None])
    lo, hi = np.zeros(len(R)), np.zeros(len(R))
    sure_empty = np.zeros(len(R), dtype=bool)
    sure_full = np.zeros(len(R), dtype=bool)
    for i in range(len(R)):
        p = np.stack([d @ ax[k][i] for k in range(3)], axis=1)
        def lev(j):
            return (p[:, 0] / a[j]) ** 2 + (p[:, 1] / b[j]) ** 2 + (p[:, 2] / c[j]) ** 2
        o, n = lev(i + 1), lev(i)
        t = 1e-5
        certain = (o < 1 - t) & (n >= 1 + t)
        possible = (o < 1 + t) & (n >= 1 - t)
        v = 4 / 3 * np.pi * (a[i + 1] * b[i + 1] * c[i + 1] - a[i] * b[i] * c[i])
        with np.errstate(divide="ignore", invalid="ignore"):
            x, y = m[certain].sum() / v, m[possible].sum() / v
        lo[i], hi[i] = min(x, y), max(x, y)
        sure_full[i] = certain.any()
        sure_empty[i] = not possible.any()
    return lo, hi, sure_empty, sure_full


def kernel_profile(d, m, r200, R):
    dist = np.linalg.norm(d, axis=1)
    if np.any(dist <= 1e-12 * (r200 + 1e-300)):
        raise Skip("particle at the centre")
    h = 0.005 * r200 * np.sqrt(dist / (0.1 * r200))
    out, tot = np.zeros(len(R)), np.zeros(len(R))
    for i, R_ in enumerate(R):
        r = R_ * r200
        k = 1 / (2 * (2 * np.pi) ** 1.5) / (r * dist / h ** 2) * (np.exp(-(dist - r) ** 2 / (2 * h ** 2)) - np.exp(-(dist + r) ** 2 / (2 * h ** 2)))
        out[i] = np.sum(m * k / h ** 3)
    return out


def _sym_eig(T):
    w, v = np.linalg.eigh(T)
    return w, v


class Shape:
    """Result of the iteration: conv, d, q, s, axes (minor, inter, major), gaps (relative eigenvalue gaps)."""


def katz(x, m, d, tol, wall, imin, reduced, delta=None, first=False, vel=None):
    """Iterative shape at elliptical radius d of particles at offsets x from the centre.

    delta None: ellipsoid (Katz & Dubinski); otherwise homoeoidal shell of width delta (first: innermost).
    vel: offsets of the velocities from their mean; then the tensor is made of those.
    """
    out = Shape()
    out.conv, out.d, out.q, out.s = False, np.nan, np.nan, np.nan
    out.axes = np.full((3, 3), np.nan)
    out.gaps = (0.0, 0.0)
    out.n = 0
    t = EDGE
    src = x if vel is None else vel

    def sel(lev_out, lev_in):
        if np.any(np.abs(lev_out - 1) < t) or (lev_in is not None and np.any(np.abs(lev_in - 1) < t)):
            raise Skip("particle at the boundary")
        k = lev_out < 1
        if lev_in is not None:
            k &= lev_in >= 1
        return k

    r2 = (x ** 2).sum(axis=1)
    if delta is None:
        k = sel(r2 / d ** 2, None)
    else:
        inn = d - delta
        k = sel(r2 / d ** 2, None if first or inn == 0 else r2 / inn ** 2)
    rell2 = r2
    q = s = 1.0
    err, it = 1.0, 1
    while True:
        if abs(err - tol) < 1e-4 * tol + 3e-7:
            raise Skip("at the tolerance")
        if not err > tol:
            break
        if it > wall or k.sum() < imin:
            return out
        mm, y = m[k], src[k]
        if reduced:
            if np.any(rell2[k] <= 1e-18 * d * d):
                raise Skip("particle at the centre")  # has no weight, or an enormous one
            wgt = mm / rell2[k]
        else:
            wgt = mm
        T = np.einsum("i,ij,ik->jk", wgt, y, y) / mm.sum()
        w, v = _sym_eig(T)
        if not w[2] > 0 or w[0] < 1e-9 * w[2]:
            raise Skip("degenerate tensor")
        q0, s0 = q, s
        q, s = np.sqrt(w[1] / w[2]), np.sqrt(w[0] / w[2])
        if (w[2] - w[1]) < 1e-7 * w[2] or (w[1] - w[0]) < 1e-7 * w[2]:
            # The principal frame is arbitrary there; harmless only if nothing depends on it any more.
            if (w[2] - w[0]) > 1e-9 * w[2]:
                raise Skip("degenerate eigenvalues")
        err = max(abs(q - q0) / q0, abs(s - s0) / s0)
        out.q, out.s, out.d = q, s, d
        out.axes = v.T.copy()  # rows: minor, inter, major
        out.gaps = ((w[2] - w[1]) / w[2], (w[1] - w[0]) / w[2])
        out.n = int(k.sum())
        p = x @ v
        ell = p[:, 2] ** 2 + p[:, 1] ** 2 / q ** 2 + p[:, 0] ** 2 / s ** 2
        rell2 = ell
        inner = None
        if delta is not None and not first:
            a_, b_, c_ = d - delta, q * d - delta, s * d - delta
            if min(abs(a_), abs(b_), abs(c_)) < 1e-6 * d:
                raise Skip("inner ellipsoid vanishes")
            inner = p[:, 2] ** 2 / a_ ** 2 + p[:, 1] ** 2 / b_ ** 2 + p[:, 0] ** 2 / c_ ** 2
        try:
            k = sel(ell / d ** 2, inner)
        except Skip:
            # Matters only if there is another round.
            if err > tol * (1 + 1e-4) + 3e-7:
                raise
        it += 1
    out.conv = True
    return out


def local_shapes(x, m, r200, R, tol, wall, imin, reduced, shell, vel=None):
    """-> list of Shape or Skip instances, one per radius."""
    res = []
    for i, R_ in enumerate(R):
        try:
            if r200 == 0:
                o = Shape()
                o.conv, o.d, o.q, o.s, o.axes, o.gaps, o.n = False, np.nan, np.nan, np.nan, np.full((3, 3), np.nan), (0, 0), 0
            elif not shell:
                o = katz(x, m, r200 * R_, tol, wall, imin, reduced, vel=vel)
            else:
                dl = r200 * R_ - (r200 * R[i - 1] if i else 0.0)
                # The innermost shell is the full ellipsoid.
                o = katz(x, m, r200 * R_, tol, wall, imin, reduced, delta=dl, first=(i == 0), vel=vel)
        except Skip as e:
            o = e
        res.append(o)
    return res


def models(profile, p, r):
    """Textbook profiles; p: dictionary."""
    x = np.asarray(r, dtype=np.float64) / p["r_s"]
    if profile == "einasto":
        return p["rho_s"] * np.exp(-2 / p["alpha"] * (x ** p["alpha"] - 1))
    if profile == "alpha_beta_gamma":
        return p["rho_s"] / (x ** p["gamma"] * (1 + x ** p["alpha"]) ** ((p["beta"] - p["gamma"]) / p["alpha"]))
    if profile == "nfw":
        return p["rho_s"] / (x * (1 + x) ** 2)
    if profile == "hernquist":
        return p["rho_s"] / (x * (1 + x) ** 3)
    raise KeyError(profile)
