"""C12: Lagrange coefficients map states to states and preserve area (F Gt - G Ft = 1)."""

import numpy as np

from .. import gen, oracle as O, table as T
from ..common import drive_group

LD = np.longdouble


def run(mon, env, adx):
    import jax
    import jax.numpy as jnp

    rng = env.rng
    drive_group(mon, env, adx, ("lagrange",), "formula", 4000, rounds=env.n(3, 40), free=True)
    tb = adx.twobody

    def chain(chi, alpha, r0, v0, mu):
        """Coefficients and end state from the library's own functions, given only chi."""
        r0m = jnp.linalg.norm(r0)
        u = [f(chi, alpha) for f in (tb.ufunc0, tb.ufunc1, tb.ufunc2)]
        s0 = jnp.squeeze(tb.sigma_fn(r0, v0, mu))
        r = adx.equ_of_orb_uvi(*u, r0m, s0)
        F, G = tb.lagrange_F(u[2], r0m), tb.lagrange_G(u[1], u[2], s0, r0m, mu)
        Ft, Gt = tb.lagrange_Ft(u[1], r, r0m, mu), tb.lagrange_Gt(u[2], r)
        return F, G, Ft, Gt, F * r0 + G * v0, Ft * r0 + Gt * v0

    f = jax.jit(jax.vmap(chain))
    n = 4000
    for _ in range(env.n(3, 40)):
        o = gen.orbits(rng, n, env.dtype)
        tl, dt = gen.times(rng, o, env.dtype, kinds=("tiny", "frac", "orbit", "multi"), many=20)
        R, V, MU = O.ld(o["r"]), O.ld(o["v"]), O.ld(o["mu"])
        _, _, q = O.propagate(R, V, dt, MU)
        chi, al = q["chi"].astype(env.dtype), q["alpha"].astype(env.dtype)
        ok, out = mon.call("area", f, chi, al, o["r"], o["v"], o["mu"])
        if not ok:
            continue
        F, G, Ft, Gt, r, v = (O.ld(np.asarray(x)) for x in out)
        reg = np.array([f"{a}/{b}/{u}" for a, b, u in zip(o["elab"], tl, o["ulab"])], object)
        # reference at the rounded chi and alpha actually used: the identity U1^2 = U2 (1 + U0)
        # makes the area 1 for every chi when alpha belongs to the state; its rounding is amplified by
        rv, vv, er, ev, _, qq = O.flow_reference(o["r"], o["v"], dt, o["mu"])
        X = np.abs(q["chi"])
        with np.errstate(all="ignore"):
            ua = O.Uall(q["chi"], q["alpha"] * (1 + LD(1e-8)), 2)
        dal = [np.abs(a - b) / LD(1e-8) for a, b in zip(ua, q["U"])]
        cond_al = np.abs(q["alpha"] * 0) + 2 / q["r0"] + O.dot(V, V) / MU  # alpha computed in longdouble, cast once
        w = dict(r0=o["r"], v0=o["v"], dt=dt, mu=o["mu"], chi=chi, alpha=al)
        # perturbation of each coefficient from one ulp of chi, alpha, r0, sigma0
        with np.errstate(all="ignore"):
            dr = q["r0"] * dal[0] + np.abs(q["sigma0"]) * dal[1] + dal[2] + np.abs(q["sigma0"] * q["U"][0] + (1 - q["alpha"] * q["r0"]) * q["U"][1]) * X
            dr += q["r"] + q["r0"] * np.abs(q["U"][0]) + np.abs(q["U"][2]) + O.norm(R) * O.norm(V) / np.sqrt(MU) * np.abs(q["U"][1])
            dF = (dal[2] + X * np.abs(q["U"][1]) + np.abs(q["U"][2])) / q["r0"] + 1
            dG = (q["r0"] * dal[1] + np.abs(q["sigma0"]) * dal[2] + X * q["r"] + q["r0"] * np.abs(q["U"][1]) + O.norm(R) * O.norm(V) / np.sqrt(MU) * np.abs(q["U"][2])) / np.sqrt(MU)
            dFt = np.abs(q["Ft"]) * (1 + dr / q["r"]) + np.sqrt(MU) / q["r"] / q["r0"] * (dal[1] + X * np.abs(q["U"][0]))
            dGt = (dal[2] + X * np.abs(q["U"][1]) + np.abs(q["U"][2])) / q["r"] + np.abs(q["U"][2]) / q["r"] ** 2 * dr + 1
        for nm, g, ref, d in (("F", F, q["F"], dF), ("G", G, q["G"], dG), ("Ft", Ft, q["Ft"], dFt), ("Gt", Gt, q["Gt"], dGt)):
            good = np.isfinite(d.astype(float)) & (dr * env.eps * 300 < 0.1 * q["r"])
            mon.judge("coefficients", np.abs(g - ref)[good], (200 * env.eps * d)[good], {**{k: x[good] for k, x in w.items()}, "coefficient": nm}, reg[good])
        tol = 200 * env.eps * (np.abs(F) * dGt + np.abs(Gt) * dF + np.abs(G) * dFt + np.abs(Ft) * dG + 1)
        good = np.isfinite(tol.astype(float)) & (dr * env.eps * 300 < 0.1 * q["r"])
        mon.judge("area", np.abs(F * Gt - G * Ft - 1)[good], tol[good], {k: x[good] for k, x in w.items()}, reg[good])
        good = np.isfinite((er + ev).astype(float)) & (dr * env.eps * 300 < 0.1 * q["r"])
        tr = 200 * env.eps * (dF * O.norm(R) + dG * O.norm(V) + er)
        tv = 200 * env.eps * (dFt * O.norm(R) + dGt * O.norm(V) + ev)
        mon.judge("maps-state", O.norm(r - rv)[good], tr[good], {k: x[good] for k, x in w.items()}, reg[good])
        mon.judge("maps-state", O.norm(v - vv)[good], tv[good], {k: x[good] for k, x in w.items()}, reg[good])
