"""C04: Kepler's equations, their derivatives and the anomalies."""

import numpy as np

from .. import gen, oracle as O, table as T
from ..common import drive_group

LD = np.longdouble


def run(mon, env, adx):
    import jax
    import jax.numpy as jnp

    rng = env.rng
    drive_group(mon, env, adx, ("kepeq",), "formula", 4000, rounds=env.n(2, 30), free=True)
    n = 4000
    for _ in range(env.n(1, 10)):
        # dE, dH are the derivatives of the equations they belong to
        i1, i2 = T.mk_E(rng, n, env.dtype), T.mk_H(rng, n, env.dtype)
        for nm, g, h, x, e, m in (
            ("elps", adx.kepler_equ_elps, adx.dE, i1["E"], i1["e"], i1["M"]),
            ("hypb", adx.kepler_equ_hypb, adx.dH, i2["H"], i2["e"], i2["N"]),
        ):
            ok, out = mon.call("derivative", jax.jit(lambda x, e, m: (jax.vmap(jax.grad(g))(x, e, m), h(x, e))), x, e, m)
            if ok:
                a, b = (O.ld(np.asarray(y)) for y in out)
                X, EE = O.ld(x), O.ld(e)
                sz = 1 + EE * np.cosh(np.where(nm == "hypb", X, 0)) * (1 + np.abs(X))
                mon.judge("derivative", np.abs(a - b), 64 * env.eps * sz, dict(x=x, e=e, m=m, eq=nm), nm)
        # along the true motion every form of Kepler's equation is satisfied
        o = gen.orbits(rng, n, env.dtype, e_regimes=T.ELL + T.HYP + ("near_parabolic_ell", "near_parabolic_hyp"))
        _, dt = gen.times(rng, o, env.dtype, kinds=("tiny", "frac", "orbit", "multi"), many=20)
        rv, vv, q = O.propagate(o["r"], o["v"], dt, o["mu"])
        MU = O.ld(o["mu"])
        sm = np.sqrt(MU)
        sig = O.dot(rv, vv) / sm
        c = lambda y: y.astype(env.dtype)
        ok, out = mon.call("universal", jax.jit(jax.vmap(lambda chi, al, r0, s0, s, dt, mu: (adx.kepler_equ_uni(chi, al, r0, s0, dt, mu), adx.generalized_anomaly(al, s, s0, dt, mu)))),
                           c(q["chi"]), c(q["alpha"]), c(q["r0"]), c(q["sigma0"]), c(sig), dt, o["mu"])
        if ok:
            res, chi = (O.ld(np.asarray(y)) for y in out)
            u = q["U"]
            # every term, and the derivative with respect to chi and alpha times their rounding
            big = np.abs(q["r0"] * u[1]) + np.abs(q["sigma0"] * u[2]) + np.abs(u[3]) + np.abs(sm * dt)
            X = q["chi"]
            with np.errstate(all="ignore"):
                ua = O.Uall(X, q["alpha"] * (1 + LD(1e-8)), 3)
            da = sum(np.abs(k * (b - a)) / LD(1e-8) for k, a, b in zip((q["r0"], q["sigma0"], LD(1)), u[1:4], ua[1:4]))
            dx = np.abs(X) * (np.abs(q["r0"] * u[0]) + np.abs(q["sigma0"] * u[1]) + np.abs(u[2]))
            reg = np.array([f"{a}/{b}" for a, b in zip(o["elab"], o["ulab"])], object)
            w = dict(r0=o["r"], v0=o["v"], dt=dt, mu=o["mu"])
            floor = 32 * np.finfo(LD).eps * O.norm(rv) * O.norm(vv) / sm  # of the oracle itself
            good = np.isfinite((big + da + dx).astype(float))
            wg = {k: v[good] for k, v in w.items()}
            mon.judge("universal", np.abs(res)[good], (200 * env.eps * (big + da + dx))[good], wg, reg[good])
            mon.judge("universal", np.abs(chi - X), 64 * env.eps * (np.abs(q["alpha"] * sm * dt) + np.abs(sig) + np.abs(q["sigma0"]) + np.abs(X)) + floor, w, reg)
        # mean anomaly: elapsed mean anomaly over one true arc equals the difference of M(E)
        ell = (o["e"] < 0.995) & (o["e"] > 1e-3)
        hyp = (o["e"] > 1.01)
        for nm, m, g in (("elps", ell, adx.mean_anomaly_elps), ("hypb", hyp, adx.mean_anomaly_hypb)):
            R0, V0, R1, V1 = (O.ld(y)[m] for y in (o["r"], o["v"], rv, vv))
            mu = MU[m]
            al = O.alpha_of(R0, V0, mu)
            a = c(1 / al)
            ok, M = mon.call("mean-anomaly", jax.jit(g), a, dt[m], o["mu"][m])
            if not ok:
                continue
            A = np.abs(1 / al)

            def mean(Rv, Vv):
                r = O.norm(Rv)
                s = O.dot(Rv, Vv) / np.sqrt(mu * A)  # e sin E or e sinh H
                if nm == "elps":
                    E = np.arctan2(s, 1 - r / A)
                    return E - s
                ec = 1 + r / A
                ee = O.norm(O.ecc_vec(Rv, Vv, mu))
                H = np.arcsinh(s / ee)
                return s - H

            d = O.ld(np.asarray(M)) - (mean(R1, V1) - mean(R0, V0))
            if nm == "elps":
                d = d - 2 * O.PI * np.rint(d / (2 * O.PI))
            amp = np.abs(O.ld(dt[m])) * np.sqrt(mu / A**3)
            cond = amp * 2 * A * (2 / O.norm(R0) + O.dot(V0, V0) / mu) + amp + 1
            mon.judge("mean-anomaly", np.abs(d), 64 * env.eps * cond, dict(r0=o["r"][m], v0=o["v"][m], dt=dt[m], mu=o["mu"][m]), nm)
    # scalars and documented defaults
    for nm, args, want in (
        ("kepler_equ_elps", (1.0, 0.5), 1 - 0.5 * np.sin(1.0)), ("kepler_equ_elps", (1, 0.5, 2), 1 - 0.5 * np.sin(1.0) - 2),
        ("kepler_equ_hypb", (1.0, 1.5), 1.5 * np.sinh(1.0) - 1), ("kepler_equ_hypb", (1, 2, 3), 2 * np.sinh(1.0) - 4),
        ("dE", (2, 0.25), 1 - 0.25 * np.cos(2)), ("dH", (2, 3), 3 * np.cosh(2) - 1),
        ("mean_anomaly_elps", (2.0, 3.0), np.sqrt(1 / 8) * 3), ("mean_anomaly_elps", (2, 3, 4), np.sqrt(0.5) * 3),
        ("mean_anomaly_hypb", (-2.0, 3.0), np.sqrt(1 / 8) * 3), ("mean_anomaly_hypb", (-2, 3, 4), np.sqrt(0.5) * 3),
        ("kepler_equ_uni", (1.0,), 1.0), ("kepler_equ_uni", (1.0, 0.5, 2.0), float(2 * O.U(1, 1.0, 0.5) + O.U(3, 1.0, 0.5))),
        ("kepler_equ_uni", (1.0, 0.5, 2.0, 0.3, 1.5, 4.0), float(2 * O.U(1, 1.0, 0.5) + LD(0.3) * O.U(2, 1.0, 0.5) + O.U(3, 1.0, 0.5) - 3)),
        ("generalized_anomaly", (0.5, 2.0, 0.75), 1.25), ("generalized_anomaly", (0.5, 2.0, 0.75, 3.0), 2.75), ("generalized_anomaly", (0.5, 2.0, 0.75, 3.0, 4.0), 4.25),
    ):
        ok, out = mon.call("scalars", getattr(adx, nm), *args)
        if ok:
            mon.require("scalars", np.shape(out) == () and abs(float(out) - want) <= 64 * env.eps * (abs(want) + 5), dict(fn=nm, args=list(args), got=float(np.asarray(out).reshape(-1)[0]), want=float(want)), "value at the documented defaults", regime=nm)
