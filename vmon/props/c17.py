"""C17: every numerical-propagation mode follows the dynamics it is given, to the accuracy asked for.

Oracles, none of them using the code under test: exact two-body motion (longdouble universal
variables), an independent DOP853 integration of independently written zonal gravity, and closed
forms of user-defined forced oscillators.  Every saved state of a trajectory is an event.
"""

import numpy as np

from .. import gen, oracle as O

LD = np.longdouble
UNITS = ("canonical", "km", "si", "moon_km", "au_year")


def run(mon, env, adx):
    import diffrax
    import jax
    import jax.numpy as jnp

    rng = env.rng
    P = adx.prop
    D = adx.diffeq if hasattr(adx, "diffeq") else __import__("astrodynx.diffeq", fromlist=["x"])
    g = adx.gravity

    def two_body(t, x, args):
        return jnp.concatenate([x[3:], g.point_mass_grav(t, x, args)])

    def zonal(t, x, args):
        a = g.point_mass_grav(t, x, args) + g.j2_acc(t, x, args) + g.j3_acc(t, x, args) + g.j4_acc(t, x, args)
        return jnp.concatenate([x[3:], a])

    def forced(t, x, args):
        # three oscillators x'' = -w^2 x + c cos(q t): reacts to t, x and every entry of args
        w, c, q = args["w"], args["c"], args["q"]
        k = w.shape[0]
        return jnp.concatenate([x[k : 2 * k], -w * w * x[:k] + c * jnp.cos(q * t), 0 * x[2 * k :]])

    tight = dict(solver=diffrax.Dopri8(), stepsize_controller=diffrax.PIDController(rtol=1e-12, atol=1e-13))
    NT = 7

    def runner(mode, field, **kw):
        def f(x, t1, args):
            od = P.OrbDynx(D.ODETerm(field), args=args)
            if mode == "to_final":
                s = P.to_final(od, x, t1, **kw)
            elif mode == "adaptive_steps":
                s = P.adaptive_steps(od, x, t1, **kw)
            elif mode == "fixed_steps":
                kw2 = {k: v for k, v in kw.items() if k != "stepsize_controller"}
                n = kw2.pop("nsteps", 900)
                s = P.fixed_steps(od, x, t1, t1 / n, max_steps=n + 2, **kw2)
            elif mode == "custom_steps":
                s = P.custom_steps(od, x, t1, t1 * jnp.asarray([0.0, 0.03, 0.25, 0.4, 0.7, 0.95, 1.0]), **kw)
            else:
                s = P.cowell_method(od, x, t1, D.SaveAt(t0=True, t1=True, ts=t1 * jnp.asarray([0.1, 0.5])), **kw)
            return s.ts, s.ys, s.stats["num_steps"]

        return jax.jit(jax.vmap(f))

    MODES = ("to_final", "adaptive_steps", "fixed_steps", "custom_steps", "cowell_method")

    def points(ts, ys, keep):
        """A few saved points of every trajectory: (event index, time, state)."""
        I, J = [], []
        for i in range(ts.shape[0]):
            fin = np.nonzero(np.isfinite(ts[i]))[0]
            if fin.size > keep:
                fin = np.unique(np.concatenate([fin[:2], rng.choice(fin, keep - 4), fin[-2:]]))
            I += [i] * fin.size
            J += list(fin)
        I, J = np.array(I, int), np.array(J, int)
        return I, ts[I, J], ys[I, J]

    # ---------------------------------------------------------------- two-body motion
    n = 64
    regimes = ("circular", "near_circular", "low", "moderate", "hyperbolic")
    for setting, kw in (("default", {}), ("tight", tight)):
        if setting == "tight" and not env.x64:
            continue
        for mode in MODES:
            f = runner(mode, two_body, **(kw if mode != "fixed_steps" else {**{k: v for k, v in kw.items() if k == "solver"}}))
            for rnd in range(env.n(2, 12)):
                o = gen.orbits(rng, n, env.dtype, units=UNITS, e_regimes=regimes)
                T = np.minimum(o["period"], 20 * o["tscale"]) * rng.uniform(0.02, 1.5, n)
                if rnd % 2:
                    T = -T
                T = T.astype(env.dtype)
                X = np.concatenate([o["r"], o["v"]], 1).astype(env.dtype)
                w0 = dict(mode=mode, setting=setting, x0=X[0], t1=T[0], mu=o["mu"][0])
                ok, out = mon.call("two-body", f, X, T, {"mu": o["mu"]}, witness=w0)
                if not ok:
                    continue
                ts, ys, ns = (np.asarray(q) for q in out)
                I, t, y = points(ts, ys, 12)
                if not mon.require("two-body-saved", set(I) == set(range(n)), w0, "a trajectory without a saved state"):
                    continue
                r, v, er, ev, _, q = O.flow_reference(X[I, :3], X[I, 3:], t, o["mu"][I])
                # local error per step allowed by the controller, plus rounding, amplified by the flow
                fixed = mode == "fixed_steps"
                peri = o["rp"][I]
                wmax = np.sqrt(o["mu"][I] / peri**3 * (1 + o["e"][I]))
                if fixed:
                    h = np.abs(T[I]) / 900 * wmax
                    loc = 40 * h**6 if setting == "default" else 1e-13 + 40 * h**9
                else:
                    loc = np.full(I.size, 3e-8 if setting == "default" else 3e-12)
                if mode in ("custom_steps", "cowell_method"):
                    # states between steps come from the solver's interpolant, which is of lower
                    # order and not under error control
                    loc = loc * (30 if setting == "tight" else 1)
                steps = np.maximum(ns[I], 10)
                tol = (loc + 4 * env.eps) * steps
                # the growth of an early error over the rest of the arc
                kr, kv = er + q["r"], ev + O.norm(v)
                e_r, e_v = O.norm(O.ld(y[:, :3]) - r), O.norm(O.ld(y[:, 3:]) - v)
                lab = np.array([f"{mode}/{setting}/{a}/{u}/{'back' if b < 0 else 'fwd'}" for a, u, b in zip(o["elab"][I], o["ulab"][I], T[I])], object)
                w = dict(x0=X[I], t=t, t1=T[I], mu=o["mu"][I], got=y)
                mon.judge("two-body", e_r, tol * kr, w, lab, trivial=t == 0)
                mon.judge("two-body", e_v, tol * kv, w, lab, trivial=t == 0)

    # ---------------------------------------------------------------- zonal perturbations
    from scipy.integrate import solve_ivp

    RE, MUE = 6378.1363, 398600.4418
    JS = dict(J2=1.08262668e-3, J3=-2.53265649e-6, J4=-1.61962159e-6)
    nz = 16
    for mode in MODES:
        f = runner(mode, zonal, **(tight if (env.x64 and mode != "fixed_steps") else {}))
        for rnd in range(env.n(1, 8)):
            unit = "km" if (rnd + MODES.index(mode)) % 2 else "canonical"
            R, mu = (RE, MUE) if unit == "km" else (1.0, 1.0)
            e = rng.uniform(0, 0.6, nz)
            rp = R * rng.uniform(1.03, 2.5, nz)
            inc = np.arccos(rng.uniform(-1, 1, nz))
            r, v = O.coe2rv(rp * (1 + e), e, inc, rng.uniform(0, 6.28, nz), rng.uniform(0, 6.28, nz), rng.uniform(-3, 3, nz), mu)
            boost = rng.choice([1.0, 30.0], nz)  # strongly oblate bodies as well
            X = np.concatenate([r, v], 1).astype(env.dtype)
            A = {"mu": np.full(nz, mu), "R_eq": np.full(nz, R), **{k: b * boost for k, b in JS.items()}}
            A = {k: a.astype(env.dtype) for k, a in A.items()}
            T = (2 * np.pi * np.sqrt((rp / (1 - e)) ** 3 / mu) * rng.uniform(0.3, 2, nz)).astype(env.dtype)
            ok, out = mon.call("zonal", f, X, T, A, witness=dict(mode=mode, x0=X[0], t1=T[0], args={k: a[0] for k, a in A.items()}))
            if not ok:
                continue
            ts, ys, ns = (np.asarray(q) for q in out)
            I, t, y = points(ts, ys, 8)
            ref = np.zeros((I.size, 6))
            for i in range(nz):
                a = {k: float(q[i]) for k, q in A.items()}

                def rhs(tt, s, a=a):
                    p = s[None, :3]
                    r2 = p @ p[0]
                    rr = np.sqrt(r2[0])
                    s_ = s[2] / rr
                    acc = -a["mu"] / rr**3 * s[:3]
                    Pn = [1.0, s_]
                    dP = [0.0, 1.0]
                    for k in (2, 3, 4):
                        Pn.append(((2 * k - 1) * s_ * Pn[-1] - (k - 1) * Pn[-2]) / k)
                        dP.append(dP[-2] + (2 * k - 1) * Pn[k - 1])
                        c = a["mu"] * a[f"J{k}"] / rr**2 * (a["R_eq"] / rr) ** k
                        acc = acc + c * (((k + 1) * Pn[k] + s_ * dP[k]) * s[:3] / rr)
                        acc[2] -= c * dP[k]
                    return np.concatenate([s[3:], acc])

                m = np.nonzero(I == i)[0]
                tt = np.unique(t[m])
                x0 = X[i].astype(float)
                L, V = np.linalg.norm(x0[:3]), np.linalg.norm(x0[3:])
                s = solve_ivp(rhs, (0, max(float(tt[-1]), 1e-9)), x0, method="DOP853", rtol=1e-12, atol=np.r_[[1e-13 * L] * 3, [1e-13 * V] * 3], t_eval=tt)
                ref[m] = s.y.T[np.searchsorted(tt, t[m])]
            rr, vv, er, ev, _, q = O.flow_reference(X[I, :3], X[I, 3:], t, A["mu"][I])
            if mode == "fixed_steps":
                wmax = np.sqrt(mu / rp[I] ** 3 * (1 + e[I]))
                loc = 40 * (T[I] / 900 * wmax) ** 6
            else:
                loc = np.full(I.size, (1e-10 if mode in ("custom_steps", "cowell_method") else 3e-12) if env.x64 else 3e-8)
            tol = (loc + 4 * env.eps) * np.maximum(ns[I], 10) * (1 + 3 * (boost[I] > 1)) + 1e-10
            lab = np.array([f"{mode}/{unit}/boost{b:.0f}" for b in boost[I]], object)
            w = dict(x0=X[I], t=t, t1=T[I], got=y, ref=ref, boost=boost[I])
            mon.judge("zonal", O.norm(O.ld(y[:, :3]) - ref[:, :3]), tol * (er + q["r"]), w, lab, trivial=t == 0)
            mon.judge("zonal", O.norm(O.ld(y[:, 3:]) - ref[:, 3:]), tol * (ev + O.norm(vv)), w, lab, trivial=t == 0)
            # energy (with the zonal potential) and the polar angular momentum along the trajectory
            p, u = O.ld(y[:, :3]), O.ld(y[:, 3:])
            P0, U0 = O.ld(X[I, :3]), O.ld(X[I, 3:])
            en = lambda p, u: O.dot(u, u) / 2 - pot(p, A, I)
            esz = O.dot(u, u) / 2 + O.ld(A["mu"][I]) / O.norm(p) + O.dot(U0, U0) / 2 + O.ld(A["mu"][I]) / O.norm(P0)
            mon.judge("integrals", np.abs(en(p, u) - en(P0, U0)), 3 * tol * esz, w, lab, trivial=t == 0)
            hz = lambda p, u: p[:, 0] * u[:, 1] - p[:, 1] * u[:, 0]
            hs = O.norm(p) * O.norm(u) + O.norm(P0) * O.norm(U0)
            mon.judge("integrals", np.abs(hz(p, u) - hz(P0, U0)), 3 * tol * hs, w, lab, trivial=t == 0)

    # ---------------------------------------------------------------- user-defined, time-dependent field
    for mode in MODES:
        f = runner(mode, forced, **(tight if (env.x64 and mode != "fixed_steps") else {}))
        for rnd in range(env.n(2, 12)):
            k = 3 if rnd == 0 else int(rng.integers(1, 7))
            xtra = 0 if rnd == 0 else int(rng.integers(0, 3))
            w_ = rng.uniform(0.5, 2, (n, k))
            q_ = rng.uniform(2.5, 4, (n, k))
            c_ = rng.uniform(-2, 2, (n, k))
            X = rng.uniform(-2, 2, (n, 2 * k + xtra)).astype(env.dtype)
            T = (rng.uniform(0.1, 8, n) * (-1 if rnd % 2 else 1)).astype(env.dtype)
            A = {k: a.astype(env.dtype) for k, a in dict(w=w_, c=c_, q=q_).items()}
            ok, out = mon.call("forced", f, X, T, A, witness=dict(mode=mode, x0=X[0], t1=T[0], args={k: a[0] for k, a in A.items()}))
            if not ok:
                continue
            ts, ys, ns = (np.asarray(q) for q in out)
            I, t, y = points(ts, ys, 12)
            W, C, Q = (O.ld(A[k][I]) for k in "wcq")
            tt = O.ld(t)[:, None]
            x0, v0 = O.ld(X[I, :k]), O.ld(X[I, k : 2 * k])
            B = C / (W**2 - Q**2)
            xr = (x0 - B) * np.cos(W * tt) + v0 / W * np.sin(W * tt) + B * np.cos(Q * tt)
            vr = -(x0 - B) * W * np.sin(W * tt) + v0 * np.cos(W * tt) - B * Q * np.sin(Q * tt)
            if mode == "fixed_steps":
                loc = 40 * (np.abs(T[I]) / 900 * 4) ** 6
            else:
                loc = np.full(I.size, (1e-10 if mode in ("custom_steps", "cowell_method") else 3e-12) if env.x64 else 3e-8)
            tol = (loc + 4 * env.eps) * np.maximum(ns[I], 10) * 40
            lab = np.array([f"{mode}/{'back' if b < 0 else 'fwd'}" for b in T[I]], object)
            wit = dict(x0=X[I], t=t, t1=T[I], w=A["w"][I], c=A["c"][I], q=A["q"][I], got=y)
            mon.judge("forced", O.norm(O.ld(y) - np.concatenate([xr, vr, O.ld(X[I, 2 * k :])], 1)), tol, wit, lab, trivial=t == 0)

    # ---------------------------------------------------------------- as called from a script: one orbit, plain numbers
    def one(mode, od, x, t1, dt0):
        kw = dict(stepsize_controller=diffrax.PIDController(rtol=1e-10, atol=1e-12)) if env.x64 else {}
        if mode == "to_final":
            return P.to_final(od, x, t1, **kw)
        if mode == "adaptive_steps":
            return P.adaptive_steps(od, x, t1, **kw)
        if mode == "fixed_steps":
            return P.fixed_steps(od, x, t1, dt0)
        if mode == "custom_steps":
            return P.custom_steps(od, x, t1, np.array([0.3 * t1, t1]), **kw)
        return P.cowell_method(od, x, t1, D.SaveAt(t0=True, steps=True), dt0, **kw)

    term = D.ODETerm(two_body)
    for i in range(env.n(20, 100)):
        mode = MODES[i % 5]
        o = gen.orbits(rng, 1, np.float64, units=("canonical",), e_regimes=("circular", "low"))
        X = np.concatenate([o["r"], o["v"]], 1).astype(env.dtype)
        t1 = float(np.round(o["period"][0] * rng.uniform(0.1, 1.2), 2) + 0.02) * (-1 if (i // 5) % 2 else 1)
        dt0 = t1 / int(rng.integers(300, 600))
        mu = [float, np.float64, env.dtype, lambda q: jnp.asarray(q, env.dtype)][rng.integers(4)](o["mu"][0])
        if i % 3 == 0:
            t1 = int(np.sign(t1) * max(1, abs(int(t1)))) if abs(t1) > 2 else t1
        w0 = dict(mode=mode, x0=X[0], t1=t1, dt0=dt0, mu=repr(mu))
        ok, s = mon.call("script", one, mode, P.OrbDynx(term, {"mu": mu}), jnp.asarray(X[0]), t1, dt0, witness=w0)
        if not ok:
            continue
        ts, ys = np.asarray(s.ts), np.asarray(s.ys)
        fin = np.isfinite(ts)
        if not mon.require("script", fin.any() and abs(ts[fin][-1] - t1) <= 1e-6 * abs(t1), dict(w0, last=ts[fin][-1:]), "reaches the final time", mode):
            continue
        m = int(fin.sum())
        r, v, er, ev, _, q = O.flow_reference(np.repeat(X[:, :3], m, 0), np.repeat(X[:, 3:], m, 0), ts[fin], np.full(m, env.dtype(o["mu"][0])))
        tol = (1e-7 if env.x64 else 2e-4) * 30
        lab = np.array([f"{mode}/{'back' if t1 < 0 else 'fwd'}/{type(t1).__name__}"] * m, object)
        mon.judge("script", O.norm(O.ld(ys[fin][:, :3]) - r), tol * (er + q["r"]), dict(t=ts[fin], got=ys[fin]), lab, trivial=ts[fin] == 0)
        mon.judge("script", O.norm(O.ld(ys[fin][:, 3:]) - v), tol * (ev + O.norm(v)), dict(t=ts[fin], got=ys[fin]), lab, trivial=ts[fin] == 0)

    # ---------------------------------------------------------------- state plus transition matrix (42 equations)
    def variational(t, x, args):
        acc = lambda p: g.point_mass_grav(t, p, args)
        J = jax.jacfwd(lambda p: acc(jnp.concatenate([p, x[3:6]])))(x[:3])
        A = jnp.block([[jnp.zeros((3, 3)), jnp.eye(3)], [J, jnp.zeros((3, 3))]])
        return jnp.concatenate([x[3:6], acc(x[:6]), (A @ x[6:].reshape(6, 6)).reshape(-1)])

    f = runner("to_final", variational, **(tight if env.x64 else {}))
    for _ in range(env.n(1, 8)):
        o = gen.orbits(rng, 32, env.dtype, units=("canonical",), e_regimes=("circular", "low", "moderate", "hyperbolic"))
        T = (np.minimum(o["period"], 20 * o["tscale"]) * rng.uniform(0.05, 1, 32)).astype(env.dtype)
        X = np.concatenate([o["r"], o["v"], np.tile(np.eye(6).reshape(1, 36), (32, 1))], 1).astype(env.dtype)
        ok, out = mon.call("variational", f, X, T, {"mu": o["mu"]})
        if not ok:
            continue
        y = O.ld(np.asarray(out[1])[:, -1])
        Phi, _, _, _ = O.stm_exact(o["r"], o["v"], T, o["mu"])
        S = y[:, 6:].reshape(-1, 6, 6)
        e = np.abs(S - Phi).reshape(32, -1).max(1)
        sz = np.abs(Phi).reshape(32, -1).max(1)
        # an error made on the way is amplified once more by the remaining flow
        amp = sz * (1 + sz)
        loc = 3e-12 if env.x64 else 3e-8
        mon.judge("variational", e, (loc + 4 * env.eps) * np.maximum(np.asarray(out[2]), 10) * amp, dict(x0=X[:, :6], t1=T), o["elab"])


def pot(p, A, I):
    mu, R = O.ld(A["mu"][I]), O.ld(A["R_eq"][I])
    r = O.norm(p)
    s = p[:, 2] / r
    P2, P3, P4 = (3 * s**2 - 1) / 2, (5 * s**3 - 3 * s) / 2, (35 * s**4 - 30 * s**2 + 3) / 8
    return mu / r * (1 - O.ld(A["J2"][I]) * (R / r) ** 2 * P2 - O.ld(A["J3"][I]) * (R / r) ** 3 * P3 - O.ld(A["J4"][I]) * (R / r) ** 4 * P4)
