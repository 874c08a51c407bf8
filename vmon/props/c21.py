"""C21: results do not depend on the choice of units.

The same physical situation is presented in two unit systems that differ by exact powers of two in
length and time (so no rounding is introduced); every result must be the first one converted.  Both
runs are also judged against the reference, and the monitor compares the pair directly.
"""

import numpy as np

from .. import gen, oracle as O, table as T
from ..common import allowance, jitted, regimes

LD = np.longdouble


def factors(dims, a, b, dtype):
    """2^(len*a + time*b) per event (a is even, so half powers of length are exact)."""
    e = dims[0] * a + dims[1] * b
    return np.ldexp(1.0, e.astype(int))


def grow(x, f):
    while f.ndim < np.ndim(x):
        f = f[..., None]
    return x * f


def run(mon, env, adx):
    import jax
    import jax.numpy as jnp

    rng = env.rng
    wide = env.x64
    n = 1500

    def draw_scales(n, up_only=False):
        amax = 30 if wide else 3
        a = 2 * rng.integers(0 if up_only else -amax, amax + 1, n)
        b = rng.integers(-40 if wide else -6, 41 if wide else 7, n)
        return a, b

    for nm, fn in T.TABLE.items():
        if fn.group in ("rot",) or all(d == (0, 0) for _, _, d in fn.args):
            continue
        f = jitted(fn, adx)
        for _ in range(env.n(1, 16)):
            inp = fn.make(rng, n, env.dtype)
            # the tolerance of the universal solver is in absolute units: only larger units keep it tight
            a, b = draw_scales(n, up_only=nm == "solve_kepler_uni")
            inp2 = {k: grow(inp[k].astype(np.float64), factors(d, a, b, env.dtype)).astype(env.dtype) for k, _, d in fn.args}
            back = {k: grow(inp2[k].astype(np.float64), 1 / factors(d, a, b, env.dtype)) for k, _, d in fn.args}
            exact = np.ones(n, bool)
            for k, _, d in fn.args:
                x = (back[k] == inp[k].astype(np.float64)).reshape(n, -1).all(1) & np.isfinite(inp2[k]).reshape(n, -1).all(1)
                exact &= x
            w = dict(function=nm, **{k: inp[k][0] for k in fn.names}, length=int(a[0]), time=int(b[0]))
            ok, out = mon.call("units", f, *fn.shape_args(inp), witness=w)
            ok2, out2 = mon.call("units", f, *fn.shape_args(inp2), witness=dict(w, scaled=True))
            if not (ok and ok2):
                continue
            try:
                o1, o2 = fn.norm_out(out), fn.norm_out(out2)
            except Exception as ex:  # noqa: BLE001
                mon.violate("units", f"unusable result: {ex}", w)
                continue
            refs = fn.refs(inp)
            al = allowance(fn, env, inp, refs, rng)
            lab = np.array([f"{nm}:{x // 8}/{y // 8}" for x, y in zip(a, b)], object)
            for j, (k, d) in enumerate(fn.outs):
                tol, good = al[j]
                s = factors(d, a, b, env.dtype)
                with np.errstate(all="ignore"):
                    res = grow(O.ld(refs[j]), O.ld(s))
                    mag = np.abs(res).reshape(n, -1).max(1).astype(np.float64) if k not in ("b", "i") else np.zeros(n)
                lim = np.finfo(env.dtype)
                good = good & exact & (mag < float(lim.max) * 1e-3) & ((mag > float(lim.tiny) * 1e6) | (mag == 0))
                if not wide:
                    # intermediate powers of length must stay in single-precision range
                    good &= in_range(fn, inp2)
                if not good.any():
                    continue
                if k in ("b", "i"):
                    e = (np.asarray(o1[j]) != np.asarray(o2[j])).astype(LD)
                    mon.judge("units", e[good], np.zeros(good.sum()), {**{q: inp[q][good] for q in fn.names}, "length": a[good], "time": b[good], "function": nm}, lab[good])
                    continue
                g1 = grow(O.ld(o1[j]), O.ld(s))
                e = T.err_of(k, O.ld(o2[j]), g1)
                sl = O.ld(s) if k not in ("a", "A") else LD(1)
                W = {**{q: inp[q][good] for q in fn.names}, "length": a[good], "time": b[good], "function": nm, "got": o1[j][good], "scaled": o2[j][good]}
                mon.judge("units", e[good], (2 * tol * sl)[good], W, lab[good])
                er = T.err_of(k, O.ld(o2[j]), res)
                mon.judge("units-value", er[good], (tol * sl)[good], W, lab[good])

    # ---------------------------------------------------------------- gravity
    g = adx.gravity
    fields = {
        "point_mass": (lambda x, mu, J, R: g.point_mass_grav(0.0, x, {"mu": mu}), 0),
        "j2": (lambda x, mu, J, R: g.j2_acc(0.0, x, {"mu": mu, "J2": J, "R_eq": R}), 2),
        "j3": (lambda x, mu, J, R: g.j3_acc(0.0, x, {"mu": mu, "J3": J, "R_eq": R}), 3),
        "j4": (lambda x, mu, J, R: g.j4_acc(0.0, x, {"mu": mu, "J4": J, "R_eq": R}), 4),
    }
    for nm, (fx, deg) in fields.items():
        F = jax.jit(jax.vmap(fx))
        for _ in range(env.n(2, 30)):
            R = 10.0 ** rng.uniform(-1, 1, n)
            d = rng.normal(size=(n, 3))
            d /= np.linalg.norm(d, axis=1, keepdims=True)
            x = np.concatenate([d * (R * 10.0 ** rng.uniform(0, 1, n))[:, None], rng.normal(size=(n, 3))], 1).astype(env.dtype)
            mu = (10.0 ** rng.uniform(-1, 1, n)).astype(env.dtype)
            J = (rng.choice([-1, 1], n) * 10.0 ** rng.uniform(-6, 0, n)).astype(env.dtype)
            R = R.astype(env.dtype)
            a, b = draw_scales(n)
            if wide:
                a = np.clip(a, -40, 40)
            else:
                # j3 and j4 form seventh powers of the radius (known single-precision limit, see C01)
                a = np.clip(a, -4, 4)
            fl, fm, fa = factors((1, 0), a, b, None), factors((3, -2), a, b, None), factors((1, -2), a, b, None)
            fv = factors((1, -1), a, b, None)
            x2 = np.concatenate([grow(x[:, :3], fl), grow(x[:, 3:], fv)], 1).astype(env.dtype)
            ok, o1 = mon.call("gravity", F, x, mu, J, R)
            ok2, o2 = mon.call("gravity", F, x2, (mu * fm).astype(env.dtype), J, (R * fl).astype(env.dtype))
            if ok and ok2:
                want = grow(O.ld(np.asarray(o1)), O.ld(fa))
                size = O.ld(np.asarray(mu)) / O.norm(O.ld(x[:, :3])) ** 2 * (np.abs(O.ld(J)) * (O.ld(R) / O.norm(O.ld(x[:, :3]))) ** deg if deg else 1)
                e = O.norm(O.ld(np.asarray(o2)) - want)
                mon.judge("gravity", e, 64 * env.eps * size * O.ld(fa), dict(x=x, mu=mu, J=J, R=R, length=a, time=b), nm)

    # ---------------------------------------------------------------- numerical propagation
    import astrodynx.diffeq as D
    import diffrax

    def prop(x, t1, mu, R, J, rmin, Ls, Vs):
        def vf(t, y, args):
            return jnp.concatenate([y[3:6], g.point_mass_grav(t, y, args) + g.j2_acc(t, y, args)])

        ctl = diffrax.PIDController(rtol=1e-9 if wide else 1e-6, atol=jnp.concatenate([jnp.full(3, 1e-9 if wide else 1e-6) * Ls, jnp.full(3, 1e-9 if wide else 1e-6) * Vs]))
        od = adx.prop.OrbDynx(D.ODETerm(vf), {"mu": mu, "J2": J, "R_eq": R, "rmin": rmin}, D.Event(adx.events.radius_islow))
        s = adx.prop.cowell_method(od, x, t1, D.SaveAt(t1=True), dt0=t1 / 64, stepsize_controller=ctl)
        return s.ts[0], s.ys[0]

    F = jax.jit(jax.vmap(prop))
    for _ in range(env.n(1, 12)):
        m = 64
        o = gen.orbits(rng, m, env.dtype, units=("canonical",), e_regimes=("low", "moderate"))
        x = np.concatenate([o["r"], o["v"]], 1).astype(env.dtype)
        T1 = (o["tscale"] * rng.uniform(0.5, 6, m)).astype(env.dtype)
        R = (0.6 * o["rp"]).astype(env.dtype)
        rmin = (o["rp"] * rng.choice([0.5, 1.15], m)).astype(env.dtype)
        J = np.full(m, 1e-3).astype(env.dtype)
        a, b = draw_scales(m)
        if not wide:
            a, b = np.clip(a, -2, 2), np.clip(b, -2, 2)
        fl, ft, fm, fv = (factors(d, a, b, None) for d in ((1, 0), (0, 1), (3, -2), (1, -1)))
        one = np.ones(m)
        c = lambda q: np.asarray(q).astype(env.dtype)
        x2 = np.concatenate([grow(x[:, :3], fl), grow(x[:, 3:], fv)], 1)
        ok, p1 = mon.call("propagation", F, x, T1, o["mu"], R, J, rmin, c(one), c(one))
        ok2, p2 = mon.call("propagation", F, c(x2), c(T1 * ft), c(o["mu"] * fm), c(R * fl), J, c(rmin * fl), c(fl), c(fv))
        if ok and ok2:
            t1, y1 = (np.asarray(q) for q in p1)
            t2, y2 = (np.asarray(q) for q in p2)
            tol = 1e-9 if wide else 2e-3
            W = dict(x0=x, t1=T1, length=a, time=b)
            mon.judge("propagation", np.abs(t2 / ft - t1) / T1, np.full(m, tol), W, "time")
            er = np.linalg.norm(y2[:, :3] / fl[:, None] - y1[:, :3], axis=1) / np.linalg.norm(y1[:, :3], axis=1)
            mon.judge("propagation", er, np.full(m, tol), W, "position")
            er = np.linalg.norm(y2[:, 3:] / fv[:, None] - y1[:, 3:], axis=1) / np.linalg.norm(y1[:, 3:], axis=1)
            mon.judge("propagation", er, np.full(m, tol), W, "velocity")


def in_range(fn, inp):
    """Single precision: keep the scaled situation inside the unit systems people use."""
    n = len(inp[fn.names[0]])
    ok = np.ones(n, bool)
    for k, kind, d in fn.args:
        x = np.abs(np.asarray(inp[k]).astype(np.float64)).reshape(n, -1).max(1)
        p = abs(d[0]) + abs(d[1])
        if p:
            s = x ** (1.0 / p)
            ok &= (s < 3e8) & ((s > 1e-6) | (x == 0))
            ok &= (x < 1e17) & ((x > 1e-15) | (x == 0))  # squares and products of two
    return ok
