"""C03: orbital integrals and conic relations."""

import numpy as np

from .. import gen, oracle as O, table as T
from ..common import drive_group, judge_table

LD = np.longdouble


def run(mon, env, adx):
    import jax
    import jax.numpy as jnp

    rng = env.rng
    drive_group(mon, env, adx, ("integrals",), "formula", 4000, rounds=env.n(2, 30), free=True)
    J = lambda f: jax.jit(f)
    C = 64 * env.eps
    n = 4000
    for _ in range(env.n(1, 12)):
        # inverse relations, through the code alone
        L, mu = T.mk_scales(rng, n, env.dtype)
        a = L.astype(env.dtype)
        mu = mu.astype(env.dtype)
        ok, out = mon.call("inverse", J(lambda a, mu: adx.a_from_period(adx.orb_period(a, mu), mu)), a, mu)
        if ok:
            mon.judge("inverse", np.abs(O.ld(np.asarray(out)) - a), C * 3 * O.ld(a), dict(a=a, mu=mu), "a->P->a")
        ok, out = mon.call("inverse", J(lambda a, mu: adx.orb_period(adx.a_from_period(a, mu), mu)), a, mu)
        if ok:
            mon.judge("inverse", np.abs(O.ld(np.asarray(out)) - a), C * 3 * O.ld(a), dict(P=a, mu=mu), "P->a->P")
        ok, out = mon.call("inverse", J(lambda a, mu: adx.mean_motion(adx.orb_period(a, mu)) ** 2 * a**3 / mu), a, mu)
        if ok:
            q = a.astype(float) ** 3 < 1e35
            mon.judge("inverse", np.abs(O.ld(np.asarray(out)) - 1)[q], C * 4, dict(a=a[q], mu=mu[q]), "third law")
        _, e = gen.pick_e(rng, n, T.ELL + T.HYP, not env.x64)
        e = e.astype(env.dtype)
        aa = np.where(e < 1, a, -a).astype(env.dtype)
        ok, out = mon.call("inverse", J(lambda a, e: adx.a_from_pe(adx.semipara_from_ae(a, e), e)), aa, e)
        cond = 1 + 2 * O.ld(e) ** 2 / np.abs(1 - O.ld(e) ** 2)
        if ok:
            mon.judge("inverse", np.abs(O.ld(np.asarray(out)) - aa), C * cond * np.abs(O.ld(aa)), dict(a=aa, e=e), "a->p->a")
        # radii along the conic lie between the apsides, which are the radii at f = 0 and pi
        p = (O.ld(aa) * (1 - O.ld(e) ** 2)).astype(env.dtype)
        fm = np.where(e >= 1, np.arccos(-1 / np.maximum(e, 1)) * 0.97, np.pi)
        f = (rng.uniform(-1, 1, n) * fm).astype(env.dtype)
        ok, out = mon.call("apsides", J(lambda p, e, f: (adx.equ_of_orbit(p, e, f), adx.radius_periapsis(p, e), adx.radius_apoapsis(p, e), adx.equ_of_orbit(p, e, 0.0), adx.equ_of_orbit(p, e, jnp.pi))), p, e, f)
        if ok:
            r, rp, ra, r0, rpi = (O.ld(np.asarray(x)) for x in out)
            w = dict(p=p, e=e, f=f)
            mon.judge("apsides", np.maximum(rp - r, 0), C * r, w, "rp<=r")
            ell = e < 1
            we = {k: v[ell] for k, v in w.items()}
            ce = C / (1 - O.ld(e[ell]))
            mon.judge("apsides", np.maximum(r - ra, 0)[ell], ce * np.abs(ra[ell]), we, "r<=ra")
            mon.judge("apsides", np.abs(r0 - rp), C * rp, w, "r(0)=rp")
            mon.judge("apsides", np.abs(rpi - ra)[ell], ce * np.abs(ra[ell]), we, "r(pi)=ra")
            a_ = (rp + ra)[ell] / 2
            mon.judge("apsides", np.abs(a_ - O.ld(aa)[ell]), ce * np.abs(O.ld(aa)[ell]) * 2, we, "rp+ra=2a")
        # the integrals are constant along the true motion and consistent with each other
        o = gen.orbits(rng, n, env.dtype, e_regimes=T.ELL + T.HYP)
        _, dt = gen.times(rng, o, env.dtype, kinds=("frac", "orbit", "multi"))
        rv, vv, q = O.propagate(o["r"], o["v"], dt, o["mu"])
        ok, out = mon.call(
            "constants",
            J(lambda r, v, mu: (adx.angular_momentum(r, v), adx.eccentricity_vector(r, v, mu[:, None]), adx.semimajor_axis(jnp.linalg.norm(r, axis=1), jnp.linalg.norm(v, axis=1), mu))),
            rv.astype(env.dtype), vv.astype(env.dtype), o["mu"],
        )
        if ok:
            R0, V0, MU = O.ld(o["r"]), O.ld(o["v"]), O.ld(o["mu"])
            r, v = O.norm(rv), O.norm(vv)
            r0, v0 = O.norm(R0), O.norm(V0)
            reg = np.array([f"{x}/{y}" for x, y in zip(o["elab"], o["ulab"])], object)
            w = dict(r0=o["r"], v0=o["v"], dt=dt, mu=o["mu"])
            h = np.cross(R0, V0)
            mon.judge("constants", O.norm(O.ld(np.asarray(out[0])) - h), C * (r * v + r0 * v0), w, reg)
            mon.judge("constants", O.norm(O.ld(np.asarray(out[1])) - O.ecc_vec(R0, V0, MU)), C * (r * v * v / MU + r0 * v0 * v0 / MU + 1), w, reg)
            al = 2 / r0 - v0 * v0 / MU
            with np.errstate(all="ignore"):
                got = 1 / O.ld(np.asarray(out[2]))
            mon.judge("constants", np.abs(got - al), C * (2 / r + v * v / MU + 2 / r0 + v0 * v0 / MU), w, reg)
            e2 = O.dot(O.ld(np.asarray(out[1])), O.ld(np.asarray(out[0])))
            mon.judge("constants", np.abs(e2), C * O.norm(h) * (r * v * v / MU + 1), w, reg)
    # plain Python numbers, integers, broadcasting
    cases = [
        ("orb_period", (4.0,), dict(a=4.0, mu=1)), ("orb_period", (4, 2), dict(a=4, mu=2)),
        ("a_from_period", (7,), dict(orbperiod=7, mu=1)), ("a_from_period", (7, 2.5), dict(orbperiod=7, mu=2.5)),
        ("semimajor_axis", (2.0, 0.5), dict(r_mag=2.0, v_mag=0.5, mu=1)), ("semimajor_axis", (2, 1, 4), dict(r_mag=2, v_mag=1, mu=4)),
        ("semiparameter", (3.0,), dict(h_mag=3.0, mu=1)), ("semiparameter", (3, 2), dict(h_mag=3, mu=2)),
        ("mean_motion", (3,), dict(P=3)), ("equ_of_orbit", (2, 0.5, 1), dict(p=2, e=0.5, f=1)),
        ("equ_of_orb_uvi", (1.5, 2, 3, 4, 0.25), dict(U0=1.5, U1=2, U2=3, r0=4, sigma0=0.25)),
        ("radius_periapsis", (2, 0.5), dict(p=2, e=0.5)), ("radius_apoapsis", (2, 0.5), dict(p=2, e=0.5)), ("radius_apoapsis", (2, 3), dict(p=2, e=3)),
        ("semipara_from_ae", (2, 0.5), dict(a=2, e=0.5)), ("semipara_from_ae", (-2, 2), dict(a=-2, e=2)), ("a_from_pe", (2, 0.5), dict(p=2, e=0.5)), ("a_from_pe", (2, 2), dict(p=2, e=2)),
    ]
    for nm, args, full in cases:
        fn = T.TABLE[nm]
        ok, out = mon.call("scalars", getattr(adx, nm), *args)
        if ok:
            inp = {k: np.asarray([float(v)]) for k, v in full.items()}
            mon.require("scalars", np.shape(out) == (), dict(fn=nm, args=list(args), shape=list(np.shape(out))), "scalars in, scalar out")
            judge_table(mon, env, "scalars", fn, inp, [np.asarray(out, np.float64).reshape(1)], label=nm)
    for nm in ("orb_period", "semimajor_axis", "equ_of_orbit", "radius_periapsis", "semipara_from_ae", "a_from_pe", "equ_of_orb_uvi", "semiparameter"):
        fn = T.TABLE[nm]
        inp = fn.make(rng, 15, env.dtype)
        keys = fn.names
        x0 = inp[keys[0]][:5].reshape(5, 1)
        rest = [inp[k][:3].reshape(1, 3) for k in keys[1:]]
        ok, out = mon.call("broadcast", getattr(adx, nm), x0, *rest)
        if ok:
            want = np.broadcast_shapes(x0.shape, *[y.shape for y in rest])
            if mon.require("broadcast", np.shape(out) == want, dict(fn=nm, shape=list(np.shape(out)), want=list(want)), "broadcast shape"):
                full = dict(zip(keys, [np.broadcast_to(y, want).reshape(-1) for y in [x0, *rest]]))
                judge_table(mon, env, "broadcast", fn, full, [np.asarray(out).reshape(-1)], label=nm)
