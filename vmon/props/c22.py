"""C22: results do not depend on the choice of reference frame.

The same situation is presented in a rotated frame (random rotations, exact axis permutations with
signs, mirror images where parity is defined) and in reversed time where the motion is reversible;
scalars must be unchanged, vectors and matrices must turn with the frame.
"""

import itertools

import numpy as np

from .. import gen, oracle as O, table as T
from ..common import allowance, jitted

LD = np.longdouble


def rand_rot(rng, n):
    q = rng.normal(size=(n, 4)).astype(LD)
    q /= O.norm(q)[:, None]
    w, x, y, z = q.T
    return np.stack([
        np.stack([1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], -1),
        np.stack([2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)], -1),
        np.stack([2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)], -1),
    ], -2)


EXACT = []
for p in itertools.permutations(range(3)):
    for s in itertools.product((1, -1), repeat=3):
        m = np.zeros((3, 3))
        for i in range(3):
            m[i, p[i]] = s[i]
        EXACT.append(m)
PROPER = [m for m in EXACT if np.linalg.det(m) > 0]
MIRROR = [m for m in EXACT if np.linalg.det(m) < 0]
PROPER_Z = [m for m in PROPER if m[2, 2] == 1]


def turn(M, x, pseudo=False):
    y = np.einsum("nij,nj->ni", M, O.ld(x))
    if pseudo:
        y = y * np.linalg.det(M.astype(float)).round()[:, None]
    return y


PSEUDO = {"h_vec"}
PSEUDO_OUT = {"angular_momentum"}
# functions of true vectors only: defined for mirror images as well
NO_MIRROR = {"inclination", "right_ascension", "rv2coe", "argument_of_periapsis"}


def run(mon, env, adx):
    import jax
    import jax.numpy as jnp

    rng = env.rng
    n = 1500
    for nm, fn in T.TABLE.items():
        if fn.frame is None or not any(k == "v" for _, k, _ in fn.args):
            continue
        f = jitted(fn, adx)
        kinds = ["random", "exact"] if fn.frame == "rot" else ["random-z", "exact-z"]
        if fn.frame == "rot" and nm not in NO_MIRROR:
            kinds.append("mirror")
        for kind in kinds:
            for _ in range(env.n(1, 14)):
                inp = fn.make(rng, n, env.dtype)
                if kind == "random":
                    M = rand_rot(rng, n)
                    ang = None
                elif kind in ("exact", "mirror", "exact-z"):
                    pool = {"exact": PROPER, "mirror": MIRROR, "exact-z": PROPER_Z}[kind]
                    M = np.stack(pool)[rng.integers(0, len(pool), n)].astype(LD)
                    ang = np.arctan2(M[:, 1, 0], M[:, 0, 0])
                else:
                    ang = O.ld(rng.uniform(-np.pi, np.pi, n))
                    M = O.rotz(ang)
                inp2 = {k: (turn(M, inp[k], k in PSEUDO).astype(env.dtype) if t == "v" else inp[k]) for k, t, _ in fn.args}
                w = dict(function=nm, kind=kind, **{k: inp[k][0] for k in fn.names})
                ok, out = mon.call("frame", f, *fn.shape_args(inp), witness=w)
                ok2, out2 = mon.call("frame", f, *fn.shape_args(inp2), witness=w)
                if not (ok and ok2):
                    continue
                try:
                    o1, o2 = fn.norm_out(out), fn.norm_out(out2)
                except Exception as ex:  # noqa: BLE001
                    mon.violate("frame", f"unusable result: {ex}", w)
                    continue
                refs = fn.refs(inp)
                al = allowance(fn, env, inp, refs, rng)
                al2 = allowance(fn, env, inp2, fn.refs(inp2), rng)
                for j, (k, _) in enumerate(fn.outs):
                    tol, good = al[j]
                    good = good & al2[j][1]
                    if not good.any():
                        continue
                    W = {**{q: inp[q][good] for q in fn.names}, "frame": M[good].astype(float), "got": o1[j][good], "turned": o2[j][good], "function": nm}
                    lab = f"{nm}/{kind}/{j}"
                    if k in ("b", "i"):
                        e = (np.asarray(o1[j]) != np.asarray(o2[j])).astype(LD)
                        mon.judge("frame", e[good], np.zeros(good.sum()), W, lab)
                        continue
                    a1, a2 = O.ld(o1[j]), O.ld(o2[j])
                    if k in ("v", "K"):
                        a1 = turn(M, a1)
                        if nm in PSEUDO_OUT:
                            a1 = a1 * np.linalg.det(M.astype(float)).round()[:, None]
                    elif k == "m":
                        a1 = np.einsum("nij,njk,nlk->nil", M, a1, M)
                    elif nm == "rv2coe" and j == 3:
                        a1 = a1 + ang
                    e = T.err_of(k, a2, a1)
                    # 3: norm-wise allowances are per component and rotations mix components
                    mon.judge("frame", e[good], (3 * (tol + al2[j][0]) + 8 * env.eps * T.size_of(k, refs[j]))[good], W, lab)

    # ---------------------------------------------------------------- element sets: turning about the pole
    for _ in range(env.n(2, 20)):
        c = T.TABLE["coe2rv"]
        inp = c.make(rng, n, env.dtype)
        ang = O.ld(rng.uniform(-np.pi, np.pi, n).astype(env.dtype))
        inp2 = dict(inp, raan=(O.ld(inp["raan"]) + ang).astype(env.dtype))
        f = jitted(c, adx)
        ok, a = mon.call("node", f, *c.shape_args(inp), witness={k: v[0] for k, v in inp.items()})
        ok2, b = mon.call("node", f, *c.shape_args(inp2))
        if ok and ok2:
            al = allowance(c, env, inp, c.refs(inp), rng)
            for j in range(2):
                e = O.norm(turn(O.rotz(ang), np.asarray(a[j])) - O.ld(np.asarray(b[j])))
                tol, good = al[j]
                mon.judge("node", e[good], (8 * tol)[good], {**{q: inp[q][good] for q in c.names}, "angle": ang[good].astype(float)}, "rv"[j])

    # ---------------------------------------------------------------- gravity
    g = adx.gravity
    cases = {
        "point_mass": (lambda x, mu, J, R: g.point_mass_grav(0.0, x, {"mu": mu}), 0),
        "j2": (lambda x, mu, J, R: g.j2_acc(0.0, x, {"mu": mu, "J2": J, "R_eq": R}), 2),
        "j3": (lambda x, mu, J, R: g.j3_acc(0.0, x, {"mu": mu, "J3": J, "R_eq": R}), 3),
        "j4": (lambda x, mu, J, R: g.j4_acc(0.0, x, {"mu": mu, "J4": J, "R_eq": R}), 4),
    }
    for nm, (fx, deg) in cases.items():
        F = jax.jit(jax.vmap(fx))
        kinds = ("random", "exact", "mirror") if deg == 0 else ("random-z", "exact-z", "equator-mirror", "side-mirror")
        for kind in kinds:
            for _ in range(env.n(1, 12)):
                R = 10.0 ** rng.uniform(-1, 1, n)
                d = rng.normal(size=(n, 3))
                d /= np.linalg.norm(d, axis=1, keepdims=True)
                x = np.concatenate([d * (R * 10.0 ** rng.uniform(0, 1, n))[:, None], rng.normal(size=(n, 3))], 1).astype(env.dtype)
                mu = (10.0 ** rng.uniform(-1, 1, n)).astype(env.dtype)
                J = (rng.choice([-1, 1], n) * 10.0 ** rng.uniform(-6, 0, n)).astype(env.dtype)
                R = R.astype(env.dtype)
                sign = 1.0
                if kind == "random":
                    M = rand_rot(rng, n)
                elif kind == "random-z":
                    M = O.rotz(rng.uniform(-np.pi, np.pi, n))
                elif kind == "equator-mirror":
                    # north-south mirror: odd harmonics change sign
                    M = np.repeat(np.diag([1.0, 1.0, -1.0])[None].astype(LD), n, 0)
                    sign = -1.0 if deg == 3 else 1.0
                elif kind == "side-mirror":
                    M = np.repeat(np.diag([1.0, -1.0, 1.0])[None].astype(LD), n, 0)
                else:
                    pool = {"exact": PROPER, "mirror": MIRROR, "exact-z": PROPER_Z}[kind]
                    M = np.stack(pool)[rng.integers(0, len(pool), n)].astype(LD)
                x2 = np.concatenate([turn(M, x[:, :3]), turn(M, x[:, 3:])], 1).astype(env.dtype)
                ok, a = mon.call("gravity", F, x, mu, J, R)
                ok2, b = mon.call("gravity", F, x2, mu, J, R)
                if ok and ok2:
                    r = O.norm(O.ld(x[:, :3]))
                    size = O.ld(mu) / r**2 * (np.abs(O.ld(J)) * (O.ld(R) / r) ** deg if deg else 1)
                    e = O.norm(sign * turn(M, np.asarray(a)) - O.ld(np.asarray(b)))
                    mon.judge("gravity", e, 256 * env.eps * size, dict(x=x, mu=mu, J=J, R=R, frame=M.astype(float)), f"{nm}/{kind}")

    # ---------------------------------------------------------------- reversed time
    kep = T.TABLE["kepler"]
    f = jitted(kep, adx)
    for _ in range(env.n(2, 20)):
        inp = kep.make(rng, n, env.dtype)
        ok, a = mon.call("time", f, *kep.shape_args(inp))
        ok2, b = mon.call("time", f, *kep.shape_args(dict(inp, ts=-inp["ts"], v0_vec=-inp["v0_vec"])))
        if ok and ok2:
            a, b = kep.norm_out(a), kep.norm_out(b)
            al = allowance(kep, env, inp, kep.refs(inp), rng)
            for j, s in enumerate((1, -1)):
                tol, good = al[j]
                e = O.norm(O.ld(a[j]) - s * O.ld(b[j]))
                mon.judge("time", e[good], (4 * tol)[good], {q: inp[q][good] for q in kep.names}, "rv"[j])
