"""C18: the output schedule of every propagation mode is the documented one.

The monitor checks the recorded trajectory (ts, ys) of every run: first row is the initial state
at time zero, times strictly monotone towards t1, last row exactly at t1, unused rows padded with
infinity, requested epochs returned verbatim and in order, states independent of the schedule, and
a run that cannot finish within max_steps reported, never returned as if complete.
"""

import numpy as np

LD = np.longdouble


def run(mon, env, adx):
    import astrodynx.diffeq as D
    import diffrax
    import jax
    import jax.numpy as jnp

    rng = env.rng
    P = adx.prop
    eps = env.eps
    dt_ = env.dtype
    tol_loc = 1e-6 if env.x64 else 3e-5

    def field(t, x, args):
        # damped and forced: smooth everywhere, sensitive to t, x and args; u is the unit of time
        k, c, u = args["k"], args["c"], args["u"]
        return jnp.concatenate([x[3:], (-k * x[:3] - 0.1 * u * x[3:] + c * jnp.sin(t / u)) / u**2])

    def dyn(args):
        return P.OrbDynx(D.ODETerm(field), args=args)

    def draw():
        u = 1.0 if rng.random() < 0.5 else 2.0 ** int(rng.integers(-16, 5) if env.x64 else rng.integers(-8, 3))
        A = {"k": rng.uniform(0.3, 2.0, 3).astype(dt_), "c": rng.uniform(-1, 1, 3).astype(dt_), "u": dt_(u)}
        x0 = rng.uniform(-1.5, 1.5, 6).astype(dt_)
        x0[3:] /= dt_(u)
        t1 = float(dt_(rng.uniform(0.2, 9) * u * (-1 if rng.random() < 0.35 else 1)))
        return A, jnp.asarray(x0), t1

    def T(x):
        # mostly array-valued times: the solver compiles once per distinct Python number
        T.n += 1
        k = T.n % 24
        return x if k in (1, 2, 3) else dt_(x) if k == 8 else jnp.asarray(x, dtype=dt_)

    T.n = 0
    wid = lambda A, x0, t1, **k: dict(x0=x0, t1=t1, **A, **k)
    np_ = np.asarray

    def rows(mode, sol, x0, t1, w, steps):
        """Trajectory contract of the modes that save every step."""
        ts, ys = np_(sol.ts), np_(sol.ys)
        good = mon.require("shape", ts.ndim == 1 and ys.shape == ts.shape + np.shape(x0), dict(w, shape=list(ys.shape), ts_shape=list(ts.shape)), "one state row per time", mode)
        if not good:
            return None
        good = mon.require("shape", ys.dtype == x0.dtype, dict(w, dtype=str(ys.dtype)), "dtype of the states", mode + "/dtype")
        fin = np.isfinite(ts)
        n = int(fin.sum())
        good &= mon.require("padding", n >= 1 and bool(np.all(fin[:n])) and bool(np.all(np.isposinf(ts[n:]))), dict(w, n=n), "times are a finite prefix followed by +inf", mode)
        good &= mon.require("padding", bool(np.all(np.isfinite(ys[:n]))) and bool(np.all(np.isposinf(ys[n:]))), dict(w, n=n), "states are finite exactly where the times are", mode)
        if not good:
            return None
        mon.require("start", ts[0] == 0 and np.array_equal(ys[0], np_(x0)), dict(w, ts0=ts[0], ys0=ys[0]), "the first row is the initial state at time zero", mode)
        mon.require("end", ts[n - 1] == dt_(t1), dict(w, last=ts[n - 1]), "the last row is at the final time", mode)
        d = np.diff(ts[:n]) * np.sign(t1)
        mon.require("monotone", bool(np.all(d > 0)), dict(w, steps=d), "times strictly ordered towards the final time", mode)
        st = {k: int(v) for k, v in sol.stats.items() if k != "max_steps"}
        mon.require("every-step", n - 1 == st["num_accepted_steps"], dict(w, rows=n, stats=st), "one row per accepted step", mode)
        return ts[:n], ys[:n], d, st

    def at(args, x0, t1, ts):
        """Reference states: an independent high-accuracy integration."""
        from scipy.integrate import solve_ivp

        k, c, u = (np_(args[q]).astype(float) for q in "kcu")
        f = lambda t, x: np.concatenate([x[3:], -k * x[:3] - 0.1 * x[3:] + c * np.sin(t)])
        unit = np.where(np.arange(6) < 3, 1, u)
        s = solve_ivp(f, (0, t1 / u), np_(x0).astype(float) * unit, method="DOP853", rtol=1e-11, atol=1e-12, dense_output=True)
        return np.stack([s.sol(float(t) / u) / unit for t in ts])

    def agree(mode, ys, ref, w, scale=1.0):
        # in units of the problem's own time; the tolerance of slow velocities is absolute
        u = float(w["u"])
        unit = np.where(np.arange(6) < 3, 1, u)
        e = (np.abs(np_(ys).astype(float) - ref) * unit).max(-1)
        mon.judge("states", e, max(u, 1) * scale * tol_loc * (1 + np.abs(ref * unit).max()), dict(got=np_(ys), ref=ref, x0=np.broadcast_to(w["x0"], ys.shape)), mode)

    # ---------------------------------------------------------------- fixed steps
    for i in range(env.n(24, 200)):
        A, x0, t1 = draw()
        whole = i % 3 == 0
        n = int(rng.integers(1, 300))
        dt = t1 / n if whole else t1 / (n + rng.uniform(0.05, 0.95))
        dt = float(dt_(dt))
        need = n if whole else n + 1
        w = wid(A, x0, t1, dt=dt)
        ok, sol = mon.call("fixed", P.fixed_steps, dyn(A), x0, T(t1), T(dt), max_steps=512, witness=w)
        if not ok:
            continue
        mon.require("shape", np.shape(sol.ts) == (513,), dict(w, shape=list(np.shape(sol.ts))), "rows allocated: max_steps + 1", "fixed")
        r = rows("fixed", sol, x0, t1, w, need)
        if r is None:
            continue
        ts, ys, d, st = r
        lim = abs(dt) * (1 + 1e-3 * (0 if env.x64 else 1)) + 64 * eps * abs(t1)
        mon.require("step-size", bool(np.all(d <= lim)), dict(w, worst=d.max()), "no step longer than the requested one", "fixed/" + ("whole" if whole else "partial"))
        mon.require("step-count", abs(len(d) - need) <= (1 if whole else 0), dict(w, got=len(d), need=need), "number of steps", "fixed/" + ("whole" if whole else "partial"))
        if whole and len(d) == need:
            mon.require("step-size", bool(np.all(np.abs(d - abs(dt)) <= 64 * eps * abs(t1))), dict(w, steps=d), "every step has the requested size", "fixed/equal")
        u = float(A["u"])
        h = abs(dt) / u
        if h < 0.2:
            j = np.unique(rng.integers(0, len(ts), 6))
            e = (np.abs(ys[j].astype(float) - at(A, x0, t1, ts[j])) * np.where(np.arange(6) < 3, 1, u)).max(-1)
            mon.judge("states", e, (40 * (2 * h) ** 5 + 1e-9 + 1e2 * eps * len(d)) * 10, dict(w=np.arange(len(j)), t=ts[j], got=ys[j]), "fixed")

    # too few steps: reported, not silently truncated
    for i in range(env.n(8, 60)):
        A, x0, t1 = draw()
        cap = (16, 33)[i % 2]
        for n in (cap - 2, cap + 2, cap + int(rng.integers(3, 200))):
            w = wid(A, x0, t1, steps_needed=n)
            f = lambda: P.fixed_steps(dyn(A), x0, T(t1), T(t1 / n), max_steps=cap)
            if cap > n:
                mon.call("budget", f, witness=dict(w, max_steps=cap))
            else:
                ok, ex = mon.call("budget", f, witness=dict(w, max_steps=cap), expect=RuntimeError)
                if ok:
                    mon.require("budget", isinstance(ex, RuntimeError), dict(w, max_steps=cap), "an unfinished propagation was returned as if complete", "fixed")
    for name, f in (
        ("adaptive", lambda A, x0, t1: P.adaptive_steps(dyn(A), x0, T(t1), max_steps=3)),
        ("cowell", lambda A, x0, t1: P.cowell_method(dyn(A), x0, T(t1), D.SaveAt(t1=True), max_steps=3)),
    ):
        for i in range(env.n(3, 20)):
            A, x0, t1 = draw()
            t1 = 5 * float(A["u"]) * np.sign(t1) + t1
            w = wid(A, x0, t1, max_steps=3, mode=name)
            ok, ex = mon.call("budget", f, A, x0, t1, witness=w, expect=RuntimeError)
            if ok:
                mon.require("budget", isinstance(ex, RuntimeError), w, "an unfinished propagation was returned as if complete", name)

    # ---------------------------------------------------------------- adaptive steps
    for i in range(env.n(16, 150)):
        A, x0, t1 = draw()
        cap = (256, 4096)[i % 2]
        w = wid(A, x0, t1, max_steps=cap)
        ok, sol = mon.call("adaptive", P.adaptive_steps, dyn(A), x0, T(t1), max_steps=cap, witness=w)
        if not ok:
            continue
        mon.require("shape", np.shape(sol.ts) == (cap + 1,), dict(w, shape=list(np.shape(sol.ts))), "rows allocated: max_steps + 1", f"adaptive/{cap}")
        r = rows("adaptive", sol, x0, t1, w, None)
        if r is None:
            continue
        ts, ys, d, st = r
        j = np.unique(rng.integers(0, len(ts), 8))
        agree("adaptive", ys[j], at(A, x0, t1, ts[j]), w)

    # ---------------------------------------------------------------- custom epochs
    for i in range(env.n(24, 200)):
        A, x0, t1 = draw()
        m = int(rng.choice([1, 2, 5, 16]))
        kind = ("random", "ends", "repeated", "clustered")[i % 4]
        u = np.sort(rng.random(m))
        if kind == "ends":
            u[-1] = 1.0
            u[0] = 0.0 if m > 1 else 1.0
        elif kind == "repeated":
            u = np.sort(u[rng.integers(0, m, m)])
        elif kind == "clustered":
            u = np.sort(np.minimum(0.5 + 1e-5 * u, 1))
        ts = (u * t1).astype(dt_)
        ts = np.minimum(ts, t1) if t1 > 0 else np.maximum(ts, t1)
        ts = ts.astype(dt_)
        w = wid(A, x0, t1, ts=ts)
        ok, sol = mon.call("custom", P.custom_steps, dyn(A), x0, T(t1), jnp.asarray(ts), witness=w)
        if not ok:
            continue
        mon.require("shape", np.shape(sol.ts) == (m,) and np.shape(sol.ys) == (m, 6), dict(w, shape=list(np.shape(sol.ys))), "one row per requested epoch", "custom")
        mon.require("epochs", np.array_equal(np_(sol.ts), ts), dict(w, got=np_(sol.ts)), "the requested epochs, in order", "custom/" + kind)
        agree("custom/" + kind, np_(sol.ys), at(A, x0, t1, ts), w)
        for j in np.nonzero(ts == 0)[0]:
            mon.require("start", np.array_equal(np_(sol.ys)[j], np_(x0)), dict(w, got=np_(sol.ys)[j]), "the state at time zero is the initial state", "custom")
        if i % 4 == 0:
            # the states at an epoch do not depend on which other epochs are asked for
            sub = ts[-1:]
            ok, s2 = mon.call("custom", P.custom_steps, dyn(A), x0, T(t1), jnp.asarray(sub), witness=w)
            if ok:
                uu = float(A["u"])
                e = (np.abs(np_(s2.ys)[0].astype(float) - np_(sol.ys)[-1]) * np.where(np.arange(6) < 3, 1, uu)).max() / max(uu, 1)
                mon.require("epochs", bool(e <= tol_loc), dict(w, error=e), "a state depends on the other epochs requested", "custom/subset")
    # long propagation: no step limit
    for i in range(env.n(1, 6)):
        A, x0, _ = draw()
        uu = float(A["u"])
        t1 = (900.0 + 50 * i) * uu
        ts = np.array([0.5 * t1, t1]).astype(dt_)
        ctl = diffrax.PIDController(rtol=1e-9 if env.x64 else 1e-6, atol=1e-9 if env.x64 else 1e-6, dtmax=0.1 * uu)
        w = wid(A, x0, t1, ts=ts)
        ok, sol = mon.call("custom-long", P.custom_steps, dyn(A), x0, T(t1), jnp.asarray(ts), stepsize_controller=ctl, witness=w)
        if ok:
            ns = int(sol.stats["num_steps"])
            mon.require("custom-long", ns > 8000, dict(w, steps=ns), "more than 8000 steps taken", "custom")
            agree("custom/long", np_(sol.ys), at(A, x0, t1, ts), w, 30)
    # epochs out of range or out of order are refused
    for i in range(env.n(4, 24)):
        A, x0, t1 = draw()
        ts = np.array([0.2, 0.5, 0.9]) * t1
        bad = [ts[::-1], np.append(ts[:2], t1 * 1.5), np.append(-ts[:1], ts[1:])][i % 3]
        w = wid(A, x0, t1, ts=bad)
        ok, ex = mon.call("refused", P.custom_steps, dyn(A), x0, T(t1), jnp.asarray(bad.astype(dt_)), witness=w, expect=(RuntimeError, ValueError))
        if ok:
            mon.require("refused", isinstance(ex, Exception), w, "epochs outside the propagation or out of order were accepted", "custom")

    # ---------------------------------------------------------------- final state only
    for i in range(env.n(16, 150)):
        A, x0, t1 = draw()
        w = wid(A, x0, t1)
        ok, sol = mon.call("final", P.to_final, dyn(A), x0, T(t1), witness=w)
        if not ok:
            continue
        if not mon.require("shape", np.shape(sol.ts) == (1,) and np.shape(sol.ys) == (1, 6), dict(w, shape=list(np.shape(sol.ys))), "a single row", "final"):
            continue
        mon.require("end", np_(sol.ts)[0] == dt_(t1), dict(w, ts=np_(sol.ts)), "the row is at the final time", "final")
        agree("final", np_(sol.ys), at(A, x0, t1, [t1]), w)
        if i < env.n(4, 20):
            # same end state through every other mode
            o1 = mon.call("modes-agree", P.adaptive_steps, dyn(A), x0, T(t1), witness=w)
            o2 = mon.call("modes-agree", P.custom_steps, dyn(A), x0, T(t1), jnp.asarray(np.array([t1], dt_)), witness=w)
            o3 = mon.call("modes-agree", P.cowell_method, dyn(A), x0, T(t1), D.SaveAt(t1=True), witness=w)
            o4 = mon.call("modes-agree", P.fixed_steps, dyn(A), x0, T(t1), T(t1 / 400), witness=w)
            for nm, (k, s) in (("adaptive", o1), ("custom", o2), ("cowell", o3), ("fixed", o4)):
                if k:
                    tt, yy = np_(s.ts), np_(s.ys)
                    yl = yy[np.isfinite(tt)][-1]
                    uu = float(A["u"])
                    unit = np.where(np.arange(6) < 3, 1, uu)
                    e = (np.abs(yl.astype(float) - np_(sol.ys)[0]) * unit).max() / max(uu, 1)
                    mon.require("modes-agree", bool(e <= tol_loc * (1 + np.abs(yl * unit).max())), dict(w, mode=nm, error=e), "end states of two modes differ", nm)

    # ---------------------------------------------------------------- free-form schedule
    def free(saveat):
        return lambda A, x0, t1: P.cowell_method(dyn(A), x0, T(t1), saveat, max_steps=256)

    for i in range(env.n(8, 60)):
        A, x0, t1 = draw()
        w = wid(A, x0, t1)
        kind = ("t0t1", "ts", "fn", "subs", "dense", "steps", "mixed")[i % 7]
        ts = (np.array([0.1, 0.5, 0.8]) * t1).astype(dt_)
        w["schedule"] = kind
        if kind == "t0t1":
            ok, s = mon.call("free", free(D.SaveAt(t0=True, t1=True)), A, x0, t1, witness=w)
            if ok:
                mon.require("free", np.array_equal(np_(s.ts), np.array([0, t1], dt_)) and np.array_equal(np_(s.ys)[0], np_(x0)), dict(w, ts=np_(s.ts)), "rows at both ends", kind)
                agree("free/" + kind, np_(s.ys), at(A, x0, t1, np_(s.ts)), w)
        elif kind == "ts":
            ok, s = mon.call("free", free(D.SaveAt(ts=jnp.asarray(ts))), A, x0, t1, witness=w)
            if ok:
                mon.require("free", np.array_equal(np_(s.ts), ts), dict(w, ts=np_(s.ts)), "requested epochs", kind)
                agree("free/" + kind, np_(s.ys), at(A, x0, t1, ts), w)
        elif kind == "fn":
            ok, s = mon.call("free", free(D.SaveAt(ts=jnp.asarray(ts), fn=lambda t, y, a: jnp.sum(y[:3] ** 2) + t)), A, x0, t1, witness=w)
            if ok:
                ref = at(A, x0, t1, ts)
                e = np.abs(np_(s.ys) - ((ref[:, :3] ** 2).sum(1) + ts))
                mon.judge("states", e, 10 * tol_loc * (1 + np.abs(ref).max() ** 2), dict(t=ts, got=np_(s.ys)), "free/fn")
        elif kind == "subs":
            ok, s = mon.call("free", free(D.SaveAt(subs=[D.SubSaveAt(t1=True), D.SubSaveAt(ts=jnp.asarray(ts))])), A, x0, t1, witness=w)
            if ok:
                mon.require("free", len(s.ts) == 2 and np.array_equal(np_(s.ts[1]), ts) and np_(s.ts[0])[0] == dt_(t1), w, "one record per requested sub-schedule", kind)
                agree("free/" + kind, np_(s.ys[1]), at(A, x0, t1, ts), w)
        elif kind == "dense":
            ok, s = mon.call("free", free(D.SaveAt(dense=True, t1=True)), A, x0, t1, witness=w)
            if ok:
                got = np.stack([np_(s.evaluate(float(t))) for t in ts])
                agree("free/" + kind, got, at(A, x0, t1, ts), w, 10)
        elif kind == "steps":
            ok, s = mon.call("free", free(D.SaveAt(t0=True, steps=True)), A, x0, t1, witness=w)
            if ok:
                rows("cowell", s, x0, t1, w, None)
        else:
            ok, s = mon.call("free", free(D.SaveAt(t0=True, t1=True, ts=jnp.asarray(ts))), A, x0, t1, witness=w)
            if ok:
                want = np.concatenate([[0], ts, [t1]]).astype(dt_)
                mon.require("free", np.array_equal(np_(s.ts), want), dict(w, ts=np_(s.ts)), "rows in order of time", kind)
                agree("free/" + kind, np_(s.ys), at(A, x0, t1, want), w)
    # a given first step is the first step taken (constant controller)
    for i in range(env.n(3, 20)):
        A, x0, t1 = draw()
        n = int(rng.integers(20, 200))
        w = wid(A, x0, t1, dt0=t1 / n)
        ok, s = mon.call("free", lambda: P.cowell_method(dyn(A), x0, T(t1), D.SaveAt(t0=True, steps=True), dt0=T(t1 / n), max_steps=256, stepsize_controller=diffrax.ConstantStepSize()), witness=w)
        if ok:
            r = rows("cowell/constant", s, x0, t1, w, n)
            if r is not None:
                mon.require("step-size", bool(np.all(np.abs(r[2] - abs(t1 / n)) <= 64 * eps * abs(t1))), dict(w, steps=r[2]), "every step has the requested size", "cowell/dt0")

    # ---------------------------------------------------------------- states of any shape and structure
    def decay(t, y, args):
        return jax.tree_util.tree_map(lambda q: -args * q, y)

    SH = [(), (1,), (2, 3), (1, 1), {"a": (3,), "b": ()}, ((2,), (2, 2))]
    leaf = lambda q: isinstance(q, tuple) and all(isinstance(z, int) for z in q)
    for i in range(env.n(len(SH), 8 * len(SH))):
        spec = SH[i % len(SH)]
        y0 = jax.tree_util.tree_map(lambda q: jnp.asarray(rng.uniform(0.5, 1.5, q).astype(dt_)), spec, is_leaf=leaf)
        k = float(rng.uniform(0.3, 1))
        t1 = float(dt_(rng.uniform(0.5, 3) * rng.choice([-1, 1])))
        ts = (np.array([0.25, 0.75]) * t1).astype(dt_)
        od = P.OrbDynx(D.ODETerm(decay), args=jnp.asarray(k, dt_))
        for mode, f in (
            ("fixed", lambda: P.fixed_steps(od, y0, T(t1), T(t1 / 40), max_steps=64)),
            ("adaptive", lambda: P.adaptive_steps(od, y0, T(t1), max_steps=64)),
            ("custom", lambda: P.custom_steps(od, y0, T(t1), jnp.asarray(ts))),
            ("final", lambda: P.to_final(od, y0, T(t1))),
            ("cowell", lambda: P.cowell_method(od, y0, T(t1), D.SaveAt(t0=True, t1=True), max_steps=64)),
        ):
            w = dict(mode=mode, shape=str(spec), t1=t1, k=k)
            ok, s = mon.call("state-shape", f, witness=w)
            if not ok:
                continue
            t = np_(s.ts).astype(float)
            fin = np.isfinite(t)
            if not mon.require("state-shape", jax.tree_util.tree_structure(s.ys) == jax.tree_util.tree_structure(y0) and fin.any(), w, "structure of the saved states", mode):
                continue
            for a, b in zip(jax.tree_util.tree_leaves(s.ys), jax.tree_util.tree_leaves(y0)):
                a = np_(a)
                if mon.require("state-shape", a.shape == t.shape + b.shape and a.dtype == b.dtype, dict(w, got=list(a.shape), dtype=str(a.dtype)), "shape of the saved states", mode):
                    ref = np.multiply.outer(np.exp(-k * t[fin]), np_(b).astype(float))
                    e = np.abs(a[fin].astype(float) - ref).reshape(fin.sum(), -1).max(1)
                    mon.judge("state-shape", e, tol_loc * 20 * np.exp(k * abs(t1)), dict(t=t[fin], got=a[fin].reshape(fin.sum(), -1)), mode)
