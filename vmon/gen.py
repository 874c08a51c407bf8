"""Hostile-but-valid workload generators."""

import numpy as np

from . import oracle as O

LD = np.longdouble

UNITS = {
    # name: (length scale, mu)
    "canonical": (1.0, 1.0),
    "km": (7000.0, 398600.4418),
    "si": (7.0e6, 3.986004418e14),
    "au_day": (1.0, 2.9591220828559093e-4),
    "au_year": (1.0, 39.47841760435743),
    "au_sat": (4.7e-5, 8.887692445e-10),
    "moon_km": (1838.0, 4902.800066),
}


def pick_units(rng, n, f32=False, only=None):
    names = list(only) if only else list(UNITS) + ["odd"]
    lab = np.array(names, dtype=object)[rng.integers(0, len(names), n)]
    L = np.empty(n)
    mu = np.empty(n)
    for k in names:
        m = lab == k
        if k == "odd":
            c = int(m.sum())
            far = (rng.random(c) < 0.4) & (not f32)
            L[m] = 10.0 ** np.where(far, rng.uniform(-8, 13, c), rng.uniform(-3, 5, c))
            mu[m] = 10.0 ** np.where(far, rng.uniform(-18, 22, c), rng.uniform(-4, 8, c))
        else:
            L[m], mu[m] = UNITS[k]
    return lab, L, mu


E_REGIMES = (
    "circular",
    "near_circular",
    "low",
    "moderate",
    "high",
    "very_high",
    "near_parabolic_ell",
    "near_parabolic_hyp",
    "hyperbolic",
    "very_hyperbolic",
)


def pick_e(rng, n, regimes=E_REGIMES, f32=False):
    lab = np.array(regimes, dtype=object)[rng.integers(0, len(regimes), n)]
    e = np.empty(n)
    lo = -5 if f32 else -11

    for k in regimes:
        m = lab == k
        c = int(m.sum())
        if k == "circular":
            e[m] = 0.0
        elif k == "near_circular":
            e[m] = 10.0 ** rng.uniform(-6 if f32 else -12, -2, c)
        elif k == "low":
            e[m] = rng.uniform(0.01, 0.3, c)
        elif k == "moderate":
            e[m] = rng.uniform(0.3, 0.8, c)
        elif k == "high":
            e[m] = rng.uniform(0.8, 0.99, c)
        elif k == "very_high":
            e[m] = 1 - 10.0 ** rng.uniform(-4, -2, c)
        elif k == "near_parabolic_ell":
            e[m] = 1 - 10.0 ** rng.uniform(lo, -3, c)
        elif k == "near_parabolic_hyp":
            e[m] = 1 + 10.0 ** rng.uniform(lo, -2, c)
        elif k == "hyperbolic":
            e[m] = rng.uniform(1.01, 3.0, c)
        elif k == "very_hyperbolic":
            e[m] = 10.0 ** np.where(rng.random(c) < 0.15, rng.uniform(1.5, 3.0, c), rng.uniform(0.5, 1.5, c))
    return lab, e


def pick_incl(rng, n):
    kinds = ("generic", "generic", "generic", "prograde_eq", "retro_eq", "polar", "near_eq", "near_retro")
    lab = np.array(kinds, dtype=object)[rng.integers(0, len(kinds), n)]
    i = np.arccos(rng.uniform(-1, 1, n))
    i = np.where(lab == "prograde_eq", 0.0, i)
    i = np.where(lab == "retro_eq", np.pi, i)
    i = np.where(lab == "polar", np.pi / 2, i)
    tiny = 10.0 ** rng.uniform(-8, -1, n)
    i = np.where(lab == "near_eq", tiny, i)
    i = np.where(lab == "near_retro", np.pi - tiny, i)
    return lab, i


def special_angles(rng, n, span=2 * np.pi):
    a = rng.uniform(0, span, n)
    s = rng.random(n) < 0.15
    a[s] = rng.integers(0, 5, s.sum()) * (np.pi / 2)
    s = rng.random(n) < 0.06  # next to a quarter turn
    a[s] = rng.integers(0, 5, s.sum()) * (np.pi / 2) + 10.0 ** rng.uniform(-9, -2, s.sum()) * rng.choice([-1, 1], s.sum())
    s = rng.random(n) < 0.04  # equal numbers in different arguments
    a[s] = rng.integers(1, 7, s.sum()) * 0.5
    return a


BOUNDS = dict(circular=(-1, 1e-15), low=(0.01, 0.3), moderate=(0.3, 0.8), high=(0.8, 0.99), hyperbolic=(1.01, 3.0), very_hyperbolic=(3.0, 30.0))


def lattice(rng, e_regimes, r, v, mu, e, rp, elab, ilab, ulab, share=0.06):
    """Replaces some orbits by ones with small round numbers: coordinates that coincide, vanish or
    are the same for position and velocity."""
    k = int(share * len(e)) + 1
    R = rng.integers(-2, 3, (8 * k, 3)).astype(float)
    W = rng.integers(-3, 4, (8 * k, 3)) * 0.5
    M = rng.choice([0.5, 1.0, 1.0, 2.0], 8 * k)
    h = np.cross(R, W)
    hm2 = np.sum(h * h, 1)
    ok = hm2 > 0
    with np.errstate(all="ignore"):
        ev = np.cross(W, h) / M[:, None] - R / np.linalg.norm(R, axis=1, keepdims=True)
        em = np.linalg.norm(ev, axis=1)
    lab = np.full(8 * k, "", object)
    for nm, (lo, hi) in BOUNDS.items():
        if nm in e_regimes:
            lab[(em > lo) & (em < hi)] = nm
    ok &= lab != ""
    src = np.nonzero(ok)[0][:k]
    dst = rng.permutation(len(e))[: min(len(src), len(e) // 4)]
    src = src[: len(dst)]
    r[dst], v[dst], mu[dst] = R[src], W[src], M[src]
    e[dst] = np.where(em[src] < 1e-12, 0, em[src])
    rp[dst] = hm2[src] / M[src] / (1 + em[src])
    elab[dst], ulab[dst] = lab[src], "canonical"
    planar = (h[src, 0] == 0) & (h[src, 1] == 0)
    ilab[dst] = np.where(planar, np.where(h[src, 2] > 0, "prograde_eq", "retro_eq"), "generic")


def orbits(rng, n, dtype, units=None, e_regimes=E_REGIMES, incl=None):
    """States as arrays of `dtype`; everything else about them is recomputed from those arrays."""
    f32 = dtype == np.float32
    ulab, L, mu = pick_units(rng, n, f32, units)
    elab, e = pick_e(rng, n, e_regimes, f32)
    ilab, inc = pick_incl(rng, n) if incl is None else (np.array([incl[0]] * n, object), incl[1](rng, n))
    rp = L * 10.0 ** rng.uniform(-0.3, 0.5, n)
    p = rp * (1 + e)
    fmax = np.where(e >= 1, np.arccos(-1 / np.maximum(e, 1)) * 0.97, np.pi)
    # near-parabolic ellipses: stay within the region a spacecraft would be in (r < 1e3 rp)
    fcap = np.where((e > 0.99) & (e < 1), 3.0, np.pi)
    f = np.minimum(np.maximum(special_angles(rng, n, 2.0) - 1.0, -1), 1) * np.minimum(fmax, fcap)
    f = np.where(rng.random(n) < 0.1, 0.0, f)
    r, v = O.coe2rv(p, e, inc, special_angles(rng, n), special_angles(rng, n), f, mu)
    # exactly equatorial orbits are exactly planar
    eq = (ilab == "prograde_eq") | (ilab == "retro_eq")
    r[eq, 2] = 0
    v[eq, 2] = 0
    if incl is None and (units is None or "canonical" in units):
        lattice(rng, e_regimes, r, v, mu, e, rp, elab, ilab, ulab)
    mu_t = mu.astype(dtype)
    return dict(
        r=r.astype(dtype),
        v=v.astype(dtype),
        mu=mu_t,
        e=e,
        rp=rp,
        elab=elab,
        ilab=ilab,
        ulab=ulab,
        tscale=np.sqrt(rp**3 / mu),
        a=np.where(np.abs(1 - e) > 1e-14, rp / np.where(e == 1, 1, 1 - e), np.inf),
        period=2 * np.pi * np.sqrt(np.abs(np.where(np.abs(1 - e) > 1e-14, rp / np.where(e == 1, 1, 1 - e), 1e6 * rp)) ** 3 / mu),
    )


def times(rng, o, dtype, kinds=("zero", "tiny", "frac", "orbit", "multi", "long"), many=100.0):
    """Flight times of either sign scaled to each orbit."""
    n = len(o["e"])
    lab = np.array(kinds, dtype=object)[rng.integers(0, len(kinds), n)]
    T = np.minimum(o["period"], 300 * o["tscale"])
    s = rng.choice([-1.0, 1.0], n)
    dt = np.zeros(n)
    for k in kinds:
        m = lab == k
        c = int(m.sum())
        if k == "zero":
            dt[m] = 0
        elif k == "tiny":
            dt[m] = o["tscale"][m] * 10.0 ** rng.uniform(-6, -2, c)
        elif k == "frac":
            dt[m] = o["tscale"][m] * rng.uniform(0, 3, c)
        elif k == "orbit":
            dt[m] = T[m] * rng.uniform(0, 1, c)
        elif k == "multi":
            dt[m] = T[m] * rng.uniform(1, 12, c)
        elif k == "long":
            dt[m] = T[m] * 10.0 ** rng.uniform(1, np.log10(many), c)
    return lab, (s * dt).astype(dtype)


def special_states():
    """Hand-made states: exact parabolas, axis-aligned circular orbits, apsides, retrograde..."""
    S = []
    s2 = np.sqrt(0.5)
    for sgn in (1, -1):
        S += [
            ([2, 0, 0], [0, sgn * 1, 0], 1.0, "parabola_peri"),
            ([0, 2, 0], [sgn * 0.6, 0.8, 0], 1.0, "parabola"),
            ([0, 0, 8], [0.5 * sgn, 0, 0], 1.0, "parabola_polar"),
            ([1, 0, 0], [0, sgn * 1, 0], 1.0, "circ_eq"),
            ([0, 1, 0], [0, 0, sgn * 1], 1.0, "circ_polar"),
            ([0, 0, 1], [sgn * 1, 0, 0], 1.0, "circ_polar_z"),
            ([-1, 0, 0], [0, 0, sgn * 1], 1.0, "circ_polar_mx"),
            ([4, 0, 0], [0, sgn * 0.5, 0], 1.0, "circ_r4"),
            ([4, 0, 0], [0, 0, sgn * 0.25], 1.0, "apoapsis"),
            ([1, 0, 0], [0, sgn * 1.25, 0], 1.0, "periapsis"),
            ([1, 0, 0], [0, sgn * 2, 0], 1.0, "hyp_peri"),
            ([3, 4, 0], [sgn * 1.0, 1.0, 0.5], 1.0, "hyp_out"),
            ([3, 4, 0], [-0.5, -1.0, sgn * 0.5], 1.0, "hyp_in"),
            ([1, 1, 0], [-s2 * sgn, s2 * sgn, 0.1], 2.0, "ell"),
        ]
    return S
