"""C19: a terminating event stops the propagation at the event, in every mode, and only then.

Oracle: the exact first time the two-body orbit descends through the threshold (longdouble), or the
closed-form zero of a user-defined condition.  Cases in which the condition is met for less than a
few steps are not generated: whether those are seen depends on the step sequence.
"""

import numpy as np

from .. import gen, oracle as O

LD = np.longdouble


def crossing(o, rmin, horizon):
    """First descending passage through rmin in (0, horizon] (nan if none), start above rmin."""
    r0, v0, mu = O.ld(o["r"]), O.ld(o["v"]), O.ld(o["mu"])
    n = len(rmin)
    h = np.cross(r0, v0)
    p = O.dot(h, h) / mu
    ev = O.ecc_vec(r0, v0, mu)
    e = O.norm(ev)
    alpha = O.alpha_of(r0, v0, mu)
    with np.errstate(all="ignore"):
        a = 1 / alpha
        s0 = O.dot(r0, v0)
        # time from periapsis of the start and of the descending passage
        def tp(r, sign):
            ce = np.clip((1 - r * alpha) / e, -1, None)
            E = np.arccos(np.clip(ce, -1, 1))
            H = np.arccosh(np.maximum(ce, 1))
            te = (E - e * np.sin(E)) / np.sqrt(mu * np.abs(alpha) ** 3)
            th = (e * np.sinh(H) - H) / np.sqrt(mu * np.abs(alpha) ** 3)
            return sign * np.where(alpha > 0, te, th)

        t0 = tp(O.norm(r0), np.where(s0 < 0, LD(-1), LD(1)))
        tc = tp(O.ld(rmin), LD(-1))
        T = np.where(alpha > 0, 2 * O.PI / np.sqrt(mu * np.abs(alpha) ** 3), np.inf)
        d = tc - t0
        d = np.where(d <= 0, d + T, d)
        rp = p / (1 + e)
        d = np.where((rp < rmin) & np.isfinite(d) & (d <= horizon), d, np.nan)
    return d


def run(mon, env, adx):
    import astrodynx.diffeq as D
    import diffrax
    import jax
    import jax.numpy as jnp
    import optimistix as optx

    rng = env.rng
    P, g = adx.prop, adx.gravity
    dt_ = env.dtype
    islow = adx.events.radius_islow

    # ---------------------------------------------------------------- the condition itself
    for _ in range(env.n(4, 40)):
        m = 512
        L = 10.0 ** rng.uniform(-3, 7, m)
        X = (rng.normal(size=(m, 6)) * L[:, None]).astype(dt_)
        tail = rng.normal(size=(m, 36)).astype(dt_)
        rmin = (L * 10.0 ** rng.uniform(-1, 1, m)).astype(dt_)
        t = rng.uniform(-5, 5, m).astype(dt_)
        ref = O.norm(O.ld(X[:, :3])) - O.ld(rmin)
        tol = 8 * env.eps * (O.norm(O.ld(X[:, :3])) + rmin)
        for nm, f, xx in (
            ("6", jax.vmap(lambda t, x, q: islow(t, x, {"rmin": q, "mu": 2.0 + q})), X),
            ("42", jax.vmap(lambda t, x, q: islow(t, x, args={"rmin": q}, terms=None, t1=3.0)), np.concatenate([X, tail], 1)),
            ("named", jax.vmap(lambda t, x, q: islow(t=t, y=x, args={"rmin": q}, terms=None)), X),
            ("3", jax.vmap(lambda t, x, q: islow(t, x, {"rmin": q})), X[:, :3]),
        ):
            ok, out = mon.call("condition", f, t, xx, rmin, witness=dict(form=nm, x=xx[0], rmin=rmin[0]))
            if ok:
                mon.judge("condition", np.abs(O.ld(np.asarray(out)) - ref), tol, dict(x=X, rmin=rmin), nm)
    x = jnp.asarray([3.0, 0.0, 4.0, 1.0, 1.0, 1.0])
    ok, out = mon.call("condition", islow, 0.0, x)
    if ok:
        mon.require("condition", float(out) == 5.0 and np.shape(out) == (), dict(x=x, got=out), "default threshold is zero; a scalar is returned", "default")

    # ---------------------------------------------------------------- radius event on orbits
    def two_body(t, x, args):
        return jnp.concatenate([x[3:], g.point_mass_grav(t, x, args)])

    budgets = [int(q) for q in rng.choice([256, 300, 500, 512, 1000, 1024, 2000, 2048, 4096], 4)]
    US = np.array([0.0, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.0])

    def make(mode, event):
        def f(x, t1, args):
            od = P.OrbDynx(D.ODETerm(two_body), args=args, event=event)
            if mode == "to_final":
                s = P.to_final(od, x, t1)
            elif mode == "adaptive_steps":
                s = P.adaptive_steps(od, x, t1, max_steps=budgets[0])
            elif mode == "fixed_steps":
                s = P.fixed_steps(od, x, t1, t1 / 900, max_steps=max(budgets[1], 1000))
            elif mode == "custom_steps":
                s = P.custom_steps(od, x, t1, t1 * jnp.asarray(US))
            else:
                s = P.cowell_method(od, x, t1, D.SaveAt(t0=True, t1=True), max_steps=budgets[2])
            mask = s.event_mask if event is not None else jnp.asarray(False)
            return s.ts, s.ys, mask, s.result == diffrax.RESULTS.event_occurred

        return jax.jit(jax.vmap(f))

    n = 48
    # single precision: the root finder cannot resolve less than a few ulps of the radius
    root = optx.Newton(rtol=1e-10, atol=1e-10) if env.x64 else optx.Newton(rtol=1e-3, atol=1e-3)
    for mode in ("adaptive_steps", "to_final", "fixed_steps", "custom_steps", "cowell_method"):
        for kind, event in (("step", D.Event(islow)), ("root", D.Event(islow, root))):
            f = make(mode, event)
            f0 = make(mode, None) if kind == "step" else None
            for _ in range(env.n(2, 14)):
                o = gen.orbits(rng, n, dt_, units=("canonical", "km") if env.x64 or kind == "step" else ("canonical",), e_regimes=("low", "moderate", "hyperbolic"))
                R0 = np.linalg.norm(o["r"].astype(float), axis=1)
                rp = o["rp"]
                # threshold either well below periapsis (no event) or deep enough to be seen
                deep = rng.random(n) < 0.7
                rmin = np.where(deep, rp * (1 + rng.uniform(0.12, 0.5, n) * np.minimum(o["e"], 1)), rp * rng.uniform(0.2, 0.93, n))
                use = R0 > rmin * 1.02
                rmin = np.where(use, rmin, rp * 0.5)
                rmin = rmin.astype(dt_)
                T = (np.minimum(o["period"], 20 * o["tscale"]) * rng.uniform(0.2, 1.6, n)).astype(dt_)
                X = np.concatenate([o["r"], o["v"]], 1).astype(dt_)
                ts_ = crossing(o, rmin, np.inf)
                # drop cases where the passage is within a step or so of the final time
                far = ~(np.abs(ts_ - T) < 0.35 * o["tscale"])
                tc = np.where(ts_ <= T, ts_, np.nan)
                args = {"mu": o["mu"], "rmin": rmin}
                w0 = dict(mode=mode, kind=kind, x0=X[0], t1=T[0], rmin=rmin[0])
                ok, out = mon.call("stop", f, X, T, args, witness=w0)
                if not ok:
                    continue
                ts, ys, mask, res = (np.asarray(q) for q in out)
                hit = np.isfinite(tc.astype(float))
                lab = [f"{mode}/{kind}/{'event' if h else 'none'}/{a}/{u}" for h, a, u in zip(hit, o["elab"], o["ulab"])]
                if mode == "custom_steps":
                    US_t = (T[:, None] * US[None].astype(dt_)).astype(dt_)
                plain = None
                if f0 is not None:
                    okp, plain = mon.call("no-event", f0, X, T, args, witness=w0)
                    plain = [np.asarray(q) for q in plain] if okp else None
                for i in range(n):
                    if not far[i]:
                        continue
                    w = dict(mode=mode, kind=kind, x0=X[i], t1=T[i], mu=o["mu"][i], rmin=rmin[i], passage=tc[i])
                    if not mon.require("reported", bool(mask[i]) == bool(hit[i]) and bool(res[i]) == bool(hit[i]), dict(w, mask=mask[i], result=res[i]), "event reported exactly when the orbit descends through the threshold", lab[i]):
                        continue
                    fin = np.isfinite(ts[i])
                    k = int(fin.sum())
                    rad = np.linalg.norm(ys[i][fin][:, :3].astype(float), axis=1)
                    sl = (1e-5 if env.x64 else 5e-3) * rmin[i]
                    ttol = (1e-5 if env.x64 else 1e-2) * float(o["tscale"][i] + T[i])
                    if not hit[i]:
                        if mode != "custom_steps":
                            mon.require("runs-on", k >= 1 and ts[i][k - 1] == T[i], dict(w, last=ts[i][max(k - 1, 0)]), "without an event the propagation reaches the final time", lab[i])
                        else:
                            mon.require("runs-on", k == len(US), dict(w, rows=k), "without an event every epoch is returned", lab[i])
                        if plain is not None:
                            same = np.array_equal(plain[0][i], ts[i]) and np.allclose(plain[1][i][fin], ys[i][fin], rtol=1e3 * env.eps, atol=1e3 * env.eps * R0[i])
                            mon.require("no-event", same, w, "an event that never happens changed the trajectory", lab[i])
                        continue
                    c = float(tc[i])
                    if mode == "custom_steps":
                        want = US_t[i] <= c - ttol
                        sure_after = US_t[i] > c + (ttol if kind == "root" else 0.8 * o["tscale"][i] + ttol)
                        mon.require("stop", bool(np.all(fin[want])) and not bool(np.any(fin[sure_after])), dict(w, ts=ts[i]), "epochs up to the event are returned, later ones are not", lab[i])
                        mon.require("stop", bool(np.all(ts[i][fin] == US_t[i][fin]) or np.allclose(ts[i][fin], US_t[i][fin], rtol=4 * env.eps)), dict(w, ts=ts[i]), "requested epochs", lab[i])
                        q = want & fin
                        if q.any():
                            r, v, _ = O.propagate(np.repeat(X[i : i + 1, :3], q.sum(), 0), np.repeat(X[i : i + 1, 3:], q.sum(), 0), ts[i][q], np.full(q.sum(), o["mu"][i]))
                            e = O.norm(O.ld(ys[i][q][:, :3]) - r)
                            mon.judge("before", e, sl * 10, dict(t=ts[i][q], x0=np.repeat(X[i : i + 1], q.sum(), 0)), lab[i])
                        continue
                    tl = float(ts[i][k - 1])
                    if kind == "root":
                        mon.require("located", abs(tl - c) <= ttol and abs(rad[-1] - rmin[i]) <= sl, dict(w, stopped=tl, radius=rad[-1]), "stops where the radius equals the threshold", lab[i])
                    else:
                        mon.require("stop", tl >= c - ttol and tl <= c + 0.8 * float(o["tscale"][i]) and rad[-1] <= rmin[i] + sl, dict(w, stopped=tl, radius=rad[-1]), "stops on the first step below the threshold", lab[i])
                    if mode in ("adaptive_steps", "fixed_steps"):
                        mon.require("before", bool(np.all(rad[:-1] >= rmin[i] - sl)) and bool(np.all(np.diff(ts[i][:k]) > 0)) and (k < 2 or ts[i][k - 2] <= c + ttol), dict(w, radii=rad[-4:], times=ts[i][max(k - 4, 0) : k]), "every state before the last is above the threshold", lab[i])
                    r, v, q = O.propagate(X[i : i + 1, :3], X[i : i + 1, 3:], np.array([tl]), o["mu"][i : i + 1])
                    mon.require("before", float(O.norm(O.ld(ys[i][fin][-1:, :3]) - r)[0]) <= 20 * sl, dict(w, stopped=tl), "the last state lies on the orbit", lab[i])

    # ---------------------------------------------------------------- every budget and every final time stop alike
    def drop(t, x, args):
        return jnp.asarray([-1.0, 0.0, 0.0]) * args["v"] + 0 * x

    coarse = diffrax.PIDController(rtol=1e-5, atol=1e-5, dtmax=0.3)
    for i in range(env.n(14, 80)):
        ms = [64, 100, 128, 200, 256, 300, 500, 512, 1000, 1024, 2000, 2048, 4096, 8192][i % 14]
        v, h, z = float(rng.uniform(0.5, 2)), float(rng.uniform(2, 4)), float(rng.uniform(0.3, 1.2))
        hit = (h - z) / v
        t1 = float(hit * rng.uniform(1.3, 4))
        ev_ = D.Event(islow, [None, root][i // 2 % 2])
        od = P.OrbDynx(D.ODETerm(drop), {"v": v, "rmin": z}, ev_)
        x = jnp.asarray(np.array([h, 0, 0], dt_))
        name = ("adaptive_steps", "fixed_steps", "cowell_method")[(i + i // 14) % 3] if env.thorough else ("adaptive_steps", "cowell_method")[i % 2] if rng.random() < 0.6 else "fixed_steps"
        f = dict(
            adaptive_steps=lambda: P.adaptive_steps(od, x, t1, max_steps=ms, stepsize_controller=coarse),
            fixed_steps=lambda: P.fixed_steps(od, x, t1, t1 / 50, max_steps=ms),
            cowell_method=lambda: P.cowell_method(od, x, t1, D.SaveAt(t1=True), max_steps=ms, stepsize_controller=coarse),
        )[name]
        w0 = dict(mode=name, max_steps=ms, v=v, height=h, rmin=z, t1=t1, root=i // 2 % 2)
        ok, s = mon.call("budgets", f, witness=w0)
        if ok:
            tl = float(np.asarray(s.ts)[np.isfinite(np.asarray(s.ts))][-1])
            late = 1e-3 * t1 if i // 2 % 2 else max(0.3, t1 / 50) * 1.05
            mon.require("budgets", bool(s.result == diffrax.RESULTS.event_occurred) and hit - 1e-3 * t1 <= tl <= hit + late, dict(w0, stopped=tl, expected=hit), "stops at the event", f"{name}/{ms}")

    # ---------------------------------------------------------------- user-defined conditions
    def osc(t, x, args):
        return jnp.concatenate([x[3:], -(args["w"] ** 2) * x[:3]])

    cz = lambda t, y, args, **kw: y[2] - args["z"]
    ct = lambda t, y, args, **kw: t > args["tmax"]
    cases = {
        "two": D.Event([cz, ct]),
        "down": D.Event(cz, direction=False),
        "up": D.Event(cz, root, direction=True),
        "bool": D.Event(ct),
    }
    fine = diffrax.PIDController(rtol=1e-6, atol=1e-6, dtmax=0.05)
    forms = {
        "adaptive_steps": lambda od, x, t1: P.adaptive_steps(od, x, t1, max_steps=512, stepsize_controller=fine),
        "fixed_steps": lambda od, x, t1: P.fixed_steps(od, x, t1, 0.05, max_steps=256),
        "to_final": lambda od, x, t1: P.to_final(od, x, t1, stepsize_controller=fine),
        "cowell_method": lambda od, x, t1: P.cowell_method(od, x, t1, D.SaveAt(t1=True), max_steps=512, stepsize_controller=fine),
        "custom_steps": lambda od, x, t1: P.custom_steps(od, x, t1, t1 * jnp.linspace(0, 1, 41), stepsize_controller=fine),
    }
    plan = [("adaptive_steps", c) for c in cases] + [(q, c) for q in list(forms)[1:] for c in (cases if env.thorough else ["up", ["two", "down", "bool"][rng.integers(3)]])]
    for mode, name in plan:
        ev = cases[name]

        def f(x, t1, args, form=forms[mode], ev=ev):
            s = form(P.OrbDynx(D.ODETerm(osc), args, ev), x, t1)
            return s.ts, s.ys, s.result == diffrax.RESULTS.event_occurred

        F = jax.jit(jax.vmap(f))
        for _ in range(env.n(1, 10)):
            m = 40
            w_ = rng.uniform(0.5, 1.5, m)
            amp, ph = rng.uniform(0.8, 2, m), rng.uniform(0, 2 * np.pi, m)
            z = amp * rng.uniform(-0.7, 0.7, m)
            X = np.zeros((m, 6))
            X[:, :2] = rng.uniform(-1, 1, (m, 2))
            X[:, 2], X[:, 5] = amp * np.cos(ph), -amp * w_ * np.sin(ph)
            T = rng.uniform(1, 9, m)
            tmax = T * rng.uniform(0.1, 1.4, m)
            A = {k: q.astype(dt_) for k, q in dict(w=w_, z=z, tmax=tmax).items()}
            ok, out = mon.call("user", F, X.astype(dt_), T.astype(dt_), A, witness=dict(mode=mode, case=name))
            if not ok:
                continue
            ts, ys, res = (np.asarray(q) for q in out)
            for i in range(m):
                # zeros of amp cos(w t + ph) - z
                b = np.arccos(z[i] / amp[i])
                zs = []
                for s_ in (1, -1):
                    for kk in range(-3, 8):
                        tt = (s_ * b - ph[i] + 2 * np.pi * kk) / w_[i]
                        zs.append((tt, s_ > 0))  # descending where the sine is positive
                tz = sorted(tt for tt, down in zs if tt > 0 and (name == "two" or (name == "down" and down) or (name == "up" and not down)))
                stops = []
                if name in ("two", "down", "up") and tz:
                    stops.append(tz[0])
                if name in ("two", "bool"):
                    stops.append(tmax[i])
                exp = min(stops) if stops else np.inf
                if abs(exp - T[i]) < 0.12 or (name != "bool" and abs(min([abs(q[0]) for q in zs])) < 0.02):
                    continue
                fin = np.isfinite(ts[i])
                tl = float(ts[i][fin][-1])
                if mode == "custom_steps":
                    # the epochs up to the stop, and no later one
                    grid = T[i] / 40
                    w = dict(mode=mode, case=name, x0=X[i], t1=T[i], z=z[i], tmax=tmax[i], w=w_[i], expected=exp, last=tl)
                    if exp > T[i]:
                        mon.require("user", bool(fin.all()) and not res[i], w, "no event: every epoch is returned", f"{mode}/{name}/none")
                    else:
                        late = 0.06 if name != "up" else 2e-3
                        mon.require("user", bool(res[i]) and exp - grid - 2e-3 <= tl <= exp + late, w, "epochs up to the event are returned, later ones are not", f"{mode}/{name}")
                    continue
                w = dict(mode=mode, case=name, x0=X[i], t1=T[i], z=z[i], tmax=tmax[i], w=w_[i], expected=exp, stopped=tl)
                if exp > T[i]:
                    mon.require("user", tl == dt_(T[i]) and not res[i], w, "no event: reaches the final time", f"{mode}/{name}/none")
                elif name == "up":
                    mon.require("user", bool(res[i]) and abs(tl - exp) < (1e-4 if env.x64 else 1e-2), w, "stops at the located event", f"{mode}/{name}")
                else:
                    mon.require("user", bool(res[i]) and -1e-3 <= tl - exp <= 0.11, w, "stops on the first step after the event", f"{mode}/{name}")
