"""C14: orbital elements of a state mean what they say, in the documented ranges, for every state."""

import numpy as np

from .. import gen, oracle as O, table as T
from ..common import drive, drive_group

LD = np.longdouble


def wrapd(x):
    return np.abs(x - 2 * O.PI * np.rint(x / (2 * O.PI)))


def judge(mon, env, name, r, v, mu, el, reg, C=128):
    R, V, MU = O.ld(r), O.ld(v), O.ld(mu)
    p, e, i, Om, w, f = (O.ld(np.asarray(x)) for x in el)
    eps = env.eps
    h = np.cross(R, V)
    hm = O.norm(h)
    rm, vm = O.norm(R), O.norm(V)
    ev = O.ecc_vec(R, V, MU)
    em = O.norm(ev)
    sc = 1 + rm * vm**2 / MU
    ang = rm * vm / hm  # one ulp of the state tilts h by this much
    N = T.ref_node(h)
    si = O.norm(N) / hm
    planar = O.norm(N) == 0
    wit = dict(r=r, v=v, mu=mu, p=np.asarray(p, float), e=np.asarray(e, float), incl=np.asarray(i, float), raan=np.asarray(Om, float), argp=np.asarray(w, float), true_anom=np.asarray(f, float))
    reg = np.asarray(reg, dtype=object)

    def sub(m):
        return {k: np.asarray(x)[m] for k, x in wit.items()}

    def J(mname, err, tol, m=None):
        m = np.ones(len(em), bool) if m is None else m
        m = m & np.isfinite(np.asarray(tol, float) + 0 * em.astype(float))
        if m.any():
            mon.judge(name + "-" + mname, np.broadcast_to(err, em.shape)[m], np.broadcast_to(tol, em.shape)[m], sub(m), reg[m])

    # ranges, no NaN
    top = 2 * np.pi * (1 + 2 * eps)
    inside = (i >= 0) & (i <= np.pi * (1 + 2 * eps)) & (Om >= 0) & (Om <= top) & (w >= 0) & (w <= top) & (f >= 0) & (f <= top) & (p > 0) & (e >= 0)
    J("range", (~inside).astype(float), 0.5)
    # shape
    J("shape", np.abs(p - hm**2 / MU), C * eps * (hm**2 / MU) * ang)
    J("shape", np.abs(e - em), C * eps * sc)
    # inclination (arccos of a rounded cosine) and ascending node
    ti = C * eps * ang
    iref = np.arctan2(O.norm(N), h[:, 2])
    J("plane", np.abs(i - iref), np.minimum(ti / np.maximum(si, 1e-30), np.sqrt(8 * ti)) + ti)
    dN = C * eps * ang / np.maximum(si, 1e-300)  # direction of the node
    J("plane", wrapd(Om - np.arctan2(N[:, 1], N[:, 0])), dN, ~planar & (dN < 0.1))
    # exactly equatorial: node along x by convention
    J("planar", wrapd(Om), 4 * eps, planar)
    Nx = np.where(planar[:, None], np.array([1, 0, 0], LD), N)
    # argument of latitude w + f (from the node, in the direction of motion): free of 1/e
    u = T.ang_signed(Nx, R, h)
    J("latitude", wrapd(w + f - u), np.where(planar, C * eps * ang, dN + C * eps * ang), planar | (dN < 0.1))
    # true longitude, free of both singularities: Om + w + f prograde, Om - w - f retrograde, once
    # the plane itself is within a hundredth of the equator
    lon = np.arctan2(R[:, 1], R[:, 0])
    low = si < 1e-2
    pro = h[:, 2] > 0
    el_lon = np.where(pro, Om + w + f, Om - w - f)
    inpl = R[:, 2] ** 2 < 1e-3 * rm**2
    # |longitude - sum| <= tan^2(i/2) plus rounding
    J("longitude", wrapd(el_lon - lon), si**2 + 4 * C * eps * ang * (1 + 0 * si), low & inpl)
    # periapsis direction and true anomaly
    de = C * eps * sc * ang / np.maximum(em, 1e-300)
    fr = T.ang_signed(ev, R, h)
    J("anomaly", wrapd(f - fr), de + C * eps * ang, de < 0.1)
    wr = T.ang_signed(Nx, ev, h)
    J("periapsis", wrapd(w - wr), de + np.where(planar, 0, dN) + C * eps * ang, (de < 0.1) & (planar | (dN < 0.1)))
    # the conic passes through the state: p = r (1 + e cos f)
    J("conic", np.abs(p - rm * (1 + e * np.cos(f))), C * eps * (p * ang + rm * (1 + e) * ang * sc), None)


def run(mon, env, adx):
    import jax

    rng = env.rng
    f = jax.jit(adx.rv2coe)
    n = 4000
    for rnd in range(env.n(5, 80)):
        o = gen.orbits(rng, n, env.dtype)
        ok, el = mon.call("elements", f, o["r"], o["v"], o["mu"][:, None])
        if not ok:
            continue
        if not mon.require("elements-shape6", len(el) == 6 and all(np.shape(x) == (n,) for x in el), dict(shape=[list(np.shape(x)) for x in el]), "six arrays, one entry per state"):
            continue
        reg = [f"{a}/{b}/{c}" for a, b, c in zip(o["elab"], o["ilab"], o["ulab"])]
        judge(mon, env, "el", o["r"], o["v"], o["mu"], el, reg)
    # hand-made degenerate states, all permutations of axes and signs, exact
    S = []
    for r0, v0, mu, lab in gen.special_states():
        for a in range(3):
            for s in (1, -1):
                r = np.roll(np.asarray(r0, float), a) * s
                v = np.roll(np.asarray(v0, float), a)
                S.append((r, v, mu, lab))
                S.append((r, -v, mu, lab))
    r = np.asarray([s[0] for s in S]).astype(env.dtype)
    v = np.asarray([s[1] for s in S]).astype(env.dtype)
    mu = np.asarray([s[2] for s in S]).astype(env.dtype)
    lab = [s[3] for s in S]
    ok, el = mon.call("elements", f, r, v, mu[:, None])
    if ok:
        judge(mon, env, "el", r, v, mu, el, lab)
    # one state at a time (scalar mu, default mu), grids of states
    m = env.n(60, 400)
    for k in range(m):
        j = int(rng.integers(len(S)))
        args = (r[j], v[j]) if (mu[j] == 1 and k % 2) else (r[j], v[j], float(mu[j]))
        ok, e1 = mon.call("single", adx.rv2coe, *args)
        if ok and mon.require("single", len(e1) == 6 and all(np.shape(x) == () for x in e1), dict(j=j, k=k, shape=[list(np.shape(x)) for x in e1]), "six scalars"):
            judge(mon, env, "el", r[j : j + 1], v[j : j + 1], mu[j : j + 1], [np.asarray(x)[None] for x in e1], [lab[j] + "/single"])
    o = gen.orbits(rng, 60, env.dtype)
    for sh in ((4, 15), (1, 60), (60, 1), (3, 4, 5)):
        ok, e1 = mon.call("grid", adx.rv2coe, o["r"].reshape(sh + (3,)), o["v"].reshape(sh + (3,)), o["mu"].reshape(sh + (1,)))
        if ok and mon.require("grid", len(e1) == 6 and all(np.shape(x) == sh for x in e1), dict(sh=list(sh), shape=[list(np.shape(x)) for x in e1]), "batch shape kept"):
            judge(mon, env, "el", o["r"], o["v"], o["mu"], [np.asarray(x).reshape(-1) for x in e1], [f"grid{len(sh)}"] * 60)
    # the stand-alone angle functions
    drive_group(mon, env, adx, ("elements",), "angles", 4000, rounds=env.n(2, 30), only=("inclination", "true_anomaly", "right_ascension", "argument_of_periapsis"), rows=6)
