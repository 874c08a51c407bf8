"""C20: the propagation modes run exactly the dynamics and settings they are given.

Two oracles.  (1) A monitor inside the user's own vector field (host callback) records every
evaluation: time, state and arguments; the history is checked offline.  (2) Each mode is compared
with a direct call of the ODE solver with the documented settings: the same trajectory and the same
step statistics, for the documented defaults and for user-given solver, controller, first step,
step budget and schedule.
"""

import numpy as np

LD = np.longdouble


def run(mon, env, adx):
    import astrodynx.diffeq as D
    import diffrax
    import jax
    import jax.numpy as jnp

    rng = env.rng
    P, g = adx.prop, adx.gravity
    dt_ = env.dtype
    np_ = np.asarray

    def two_body(t, x, args):
        return jnp.concatenate([x[3:], g.point_mass_grav(t, x, args)])

    def forced(t, x, args):
        return jnp.concatenate([x[3:], -args["k"] * x[:3] + args["c"] * jnp.sin(args["w"] * t)])

    def draw(field):
        if field is two_body:
            a = rng.uniform(0.8, 2)
            e = rng.uniform(0, 0.5)
            x = np.array([a * (1 - e), 0, 0, 0, np.sqrt((1 + e) / (1 - e) / a) * np.cos(0.5), np.sqrt((1 + e) / (1 - e) / a) * np.sin(0.5)])
            m = rng.uniform(0.9, 1.1)
            x[3:] *= np.sqrt(m)
            A = {"mu": dt_(m)}
        else:
            x = rng.uniform(-1, 1, 6)
            A = {"k": rng.uniform(0.3, 2, 3).astype(dt_), "c": rng.uniform(-1, 1, 3).astype(dt_), "w": dt_(rng.uniform(0.5, 2))}
        return jnp.asarray(x.astype(dt_)), jax.tree_util.tree_map(jnp.asarray, A), jnp.asarray(dt_(rng.uniform(1, 6) * rng.choice([1, 1, -1])))

    # ---------------------------------------------------------------- recorded histories
    log = []

    def spy(t, x, args):
        jax.debug.callback(lambda t, x, a: log.append((np.array(t), np.array(x), jax.tree_util.tree_map(np.array, a))), t, x, args)
        p, q = (args["s"][0], args["s"][1]) if isinstance(args, dict) and args else (1.0, 0.8)
        return jnp.concatenate([x[3:6] * p, -x[:3] * q, -0.1 * x[6:]])

    PI_ = diffrax.PIDController(rtol=1e-4, atol=1e-4)
    modes = {
        "to_final": lambda od, x, t1: P.to_final(od, x, t1, stepsize_controller=PI_),
        "adaptive_steps": lambda od, x, t1: P.adaptive_steps(od, x, t1, stepsize_controller=PI_),
        "fixed_steps": lambda od, x, t1: P.fixed_steps(od, x, t1, t1 / 16),
        "custom_steps": lambda od, x, t1: P.custom_steps(od, x, t1, t1 * jnp.asarray([0.25, 1.0]), stepsize_controller=PI_),
        "cowell_method": lambda od, x, t1: P.cowell_method(od, x, t1, D.SaveAt(t1=True), stepsize_controller=PI_),
    }
    for mode, f in modes.items():
        for i in range(env.n(6, 24)):
            N = (6, 42, 6, 9)[i % 4] if env.thorough else (6, 42)[i // 2 % 2]
            x0 = jnp.asarray(rng.uniform(-1, 1, N).astype(dt_))
            t1 = float(dt_(rng.uniform(1, 4)))
            if i % 2 and mode != "custom_steps":
                t1 = -t1
            A = {"s": jnp.asarray(rng.uniform(0.5, 1.5, 2).astype(dt_)), "deep": [{"n": jnp.asarray(i)}, (jnp.asarray([1.5, -2.5], dtype=dt_), None)], "flag": jnp.asarray(True)}
            if i % 2 and i > 1:  # argument trees of any shape, or none at all
                A = None if i == 3 else [jnp.asarray(rng.normal(size=3).astype(dt_)), (jnp.asarray(dt_(1.5)), [jnp.asarray(2)]), {}, jnp.asarray(dt_(0.25))][rng.integers(4)]
            if i == 4:
                A = [jnp.asarray(dt_(0.5)), [jnp.asarray(dt_(1.0))]]
            keep = jax.tree_util.tree_map(np.array, A)
            log.clear()
            w = dict(mode=mode, x0=x0, t1=t1)
            ok, sol = mon.call("history", f, P.OrbDynx(D.ODETerm(spy), args=A), x0, jnp.asarray(t1, dtype=dt_), witness=w)
            if not ok:
                continue
            jax.effects_barrier()
            if not mon.require("history", len(log) >= 12, dict(w, evaluations=len(log)), "the vector field was evaluated", mode):
                continue
            same = all(
                jax.tree_util.tree_structure(a) == jax.tree_util.tree_structure(keep)
                and all(np.array_equal(p, q) and p.dtype == q.dtype for p, q in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(keep)))
                for _, _, a in log
            )
            mon.require("history-args", same, dict(w, evaluations=len(log)), "every evaluation sees exactly the given arguments", mode)
            t = np.array([float(q[0]) for q in log])
            lo, hi = min(0.0, t1), max(0.0, t1)
            pad = 4 * env.eps * abs(t1)
            mon.require("history-times", bool(np.all((t >= lo - pad) & (t <= hi + pad))), dict(w, times=[t.min(), t.max()]), "evaluation times lie within the propagation", mode)
            mon.require("history-times", bool((t == 0).any()) and abs(t[np.argmax(np.abs(t))] - t1) < 0.5 * abs(t1), dict(w, times=[t.min(), t.max()]), "evaluations span the propagation", mode)
            mon.require("history-states", all(q[1].shape == (N,) and q[1].dtype == x0.dtype for q in log), dict(w, shapes=[list(q[1].shape) for q in log[:3]]), "every evaluation sees a full state vector", mode)
            mon.require("history-states", any(float(q[0]) == 0 and np.array_equal(q[1], np_(x0)) for q in log), w, "the first evaluation is at the initial state", mode)
            st = {k: int(v) for k, v in sol.stats.items() if k != "max_steps"}
            mon.require("history", st["num_steps"] == st["num_accepted_steps"] + st["num_rejected_steps"] and len(log) >= st["num_accepted_steps"], dict(w, stats=st, evaluations=len(log)), "statistics match the recorded evaluations", mode)
            mon.require("history-args", all(np.array_equal(p, q) for p, q in zip(jax.tree_util.tree_leaves(A), jax.tree_util.tree_leaves(keep))), w, "arguments unchanged by the propagation", mode)

    # ---------------------------------------------------------------- against the solver itself
    TS = jnp.asarray([0.0, 0.2, 0.5, 0.9, 1.0], dtype=dt_)
    pid8 = diffrax.PIDController(rtol=1e-8, atol=1e-8)
    pid5 = diffrax.PIDController(rtol=1e-5, atol=1e-6, dtmin=None)
    const = diffrax.ConstantStepSize()

    def direct(field, x, t1, A, saveat, solver=None, dt0=None, max_steps=4096, ctl=pid8, event=None):
        return diffrax.diffeqsolve(
            diffrax.ODETerm(field), solver or diffrax.Tsit5(), t0=0, t1=t1, dt0=dt0, y0=x, args=A,
            saveat=saveat, stepsize_controller=ctl, max_steps=max_steps, event=event,
        )

    every = D.SaveAt(t0=True, steps=True)
    islow = lambda t, y, args, **kw: y[0]
    ev = D.Event(islow)
    pairs = {
        "cowell/default": (lambda od, x, t: P.cowell_method(od, x, t, every), lambda f, x, t, A: direct(f, x, t, A, every)),
        "cowell/solver": (lambda od, x, t: P.cowell_method(od, x, t, every, solver=diffrax.Dopri5()), lambda f, x, t, A: direct(f, x, t, A, every, solver=diffrax.Dopri5())),
        "cowell/controller": (lambda od, x, t: P.cowell_method(od, x, t, every, stepsize_controller=pid5), lambda f, x, t, A: direct(f, x, t, A, every, ctl=pid5)),
        "cowell/dt0": (lambda od, x, t: P.cowell_method(od, x, t, every, t / 37), lambda f, x, t, A: direct(f, x, t, A, every, dt0=t / 37)),
        "cowell/constant": (lambda od, x, t: P.cowell_method(od, x, t, every, dt0=t / 50, max_steps=64, solver=diffrax.Euler(), stepsize_controller=const), lambda f, x, t, A: direct(f, x, t, A, every, dt0=t / 50, max_steps=64, solver=diffrax.Euler(), ctl=const)),
        "fixed/default": (lambda od, x, t: P.fixed_steps(od, x, t, t / 60.5), lambda f, x, t, A: direct(f, x, t, A, every, dt0=t / 60.5, ctl=const)),
        "fixed/solver": (lambda od, x, t: P.fixed_steps(od, x, t, t / 60, 128, diffrax.Heun()), lambda f, x, t, A: direct(f, x, t, A, every, dt0=t / 60, ctl=const, max_steps=128, solver=diffrax.Heun())),
        "adaptive/default": (lambda od, x, t: P.adaptive_steps(od, x, t), lambda f, x, t, A: direct(f, x, t, A, every)),
        "adaptive/all": (lambda od, x, t: P.adaptive_steps(od, x, t, 300, diffrax.Bosh3(), pid5), lambda f, x, t, A: direct(f, x, t, A, every, max_steps=300, solver=diffrax.Bosh3(), ctl=pid5)),
        "custom/default": (lambda od, x, t: P.custom_steps(od, x, t, t * TS), lambda f, x, t, A: direct(f, x, t, A, D.SaveAt(ts=t * TS), max_steps=None)),
        "custom/all": (lambda od, x, t: P.custom_steps(od, x, t, t * TS, diffrax.Dopri5(), pid5), lambda f, x, t, A: direct(f, x, t, A, D.SaveAt(ts=t * TS), max_steps=None, solver=diffrax.Dopri5(), ctl=pid5)),
        "final/default": (lambda od, x, t: P.to_final(od, x, t), lambda f, x, t, A: direct(f, x, t, A, D.SaveAt(t1=True))),
        "final/all": (lambda od, x, t: P.to_final(od, x, t, diffrax.Bosh3(), pid5), lambda f, x, t, A: direct(f, x, t, A, D.SaveAt(t1=True), solver=diffrax.Bosh3(), ctl=pid5)),
    }
    for name, (fa, fb) in pairs.items():
        for field in (two_body, forced):
            if (field is two_body or not env.x64) and not name.endswith("default") and not env.thorough:
                continue
            event = ev if (field is two_body and name.endswith("default")) else None

            def A_(x, t, A):
                s = fa(P.OrbDynx(D.ODETerm(field), A, event), x, t)
                return s.ts, s.ys, s.stats["num_steps"], s.stats["num_accepted_steps"], s.stats["num_rejected_steps"]

            def B_(x, t, A):
                if event is not None:
                    s = direct_event(fb, field, x, t, A, event)
                else:
                    s = fb(field, x, t, A)
                return s.ts, s.ys, s.stats["num_steps"], s.stats["num_accepted_steps"], s.stats["num_rejected_steps"]

            def direct_event(fb, field, x, t, A, event):
                nonlocal_direct = direct.__defaults__
                direct.__defaults__ = nonlocal_direct[:-1] + (event,)
                try:
                    return fb(field, x, t, A)
                finally:
                    direct.__defaults__ = nonlocal_direct

            ja, jb = jax.jit(A_), jax.jit(B_)
            for _ in range(env.n(8, 80)):
                x, A, t = draw(field)
                w = dict(setting=name, field=field.__name__, x0=x, t1=t, args=A)
                ok, a = mon.call("settings", ja, x, t, A, witness=w)
                if not ok:
                    continue
                b = [np_(q) for q in jb(x, t, A)]
                a = [np_(q) for q in a]
                if not mon.require("settings", a[0].shape == b[0].shape and a[1].shape == b[1].shape, dict(w, got=list(a[1].shape), want=list(b[1].shape)), "rows returned", name):
                    continue
                fa_, fb_ = np.isfinite(a[0]), np.isfinite(b[0])
                stats = [int(q) for q in a[2:]], [int(q) for q in b[2:]]
                mon.require("statistics", (stats[0] == stats[1] and np.array_equal(fa_, fb_)) if env.x64 else abs(stats[0][0] - stats[1][0]) <= 2 + 0.05 * stats[1][0], dict(w, got=stats[0], want=stats[1]), "number of steps taken and rejected under the documented settings", name + "/" + field.__name__)
                if not np.array_equal(fa_, fb_):
                    continue
                tol = 1e-11 if env.x64 else 2e-5
                mon.judge("settings", np.abs(a[0][fa_] - b[0][fa_]), tol * 10, dict(t=b[0][fa_], name=name), name + "/ts")
                mon.judge("settings", np.abs(a[1][fa_] - b[1][fa_]).max(-1), tol * (1 + np.abs(b[1][fa_]).max()), dict(t=b[0][fa_], y=b[1][fa_], name=name), name + "/ys")

    # ---------------------------------------------------------------- random settings, as a user writes them
    def linear(t, x, args):
        return args["A"] @ x + args["c"] * jnp.sin(args["w"] * t)

    def cond_state(t, y, args, **kw):
        return y[0] - args["z"]

    def cond_time(t, y, args, **kw):
        return jnp.abs(t) - args["z"]

    def cond_bool(t, y, args, **kw):
        return y[-1] > args["z"]

    solvers = (None, diffrax.Tsit5, diffrax.Dopri5, diffrax.Dopri8, diffrax.Bosh3, diffrax.Heun)
    for i in range(env.n(35, 280)):
        N = int(rng.integers(1, 10))
        M = rng.normal(size=(N, N))
        M = (M - M.T) * 0.7 - 0.1 * np.eye(N)
        A = {"A": M.astype(dt_), "c": rng.normal(size=N).astype(dt_), "w": dt_(rng.uniform(0.5, 3)), "z": dt_(rng.uniform(-0.5, 1.5))}
        x = rng.normal(size=N).astype(dt_)
        t1 = float(dt_(rng.uniform(0.5, 6) * rng.choice([-1, 1])))
        mode = ["cowell_method", "fixed_steps", "adaptive_steps", "custom_steps", "to_final"][i % 5]
        ms = [None, 64, 100, 128, 200, 256, 300, 500, 512, 1000, 1024, 2048, 4096, 5000, 8192][rng.integers(0, 15)]
        sv = solvers[rng.integers(0, len(solvers))]
        ctl = [None, diffrax.PIDController(rtol=1e-5, atol=1e-6), diffrax.PIDController(rtol=1e-6, atol=1e-9, dtmax=0.3), diffrax.PIDController(rtol=1e-4, atol=1e-4, pcoeff=0.2, icoeff=0.4), const][rng.integers(0, 5)]
        if sv is diffrax.Heun or sv is diffrax.Bosh3:
            ctl = ctl or diffrax.PIDController(rtol=1e-4, atol=1e-4)
        event = [None, D.Event(cond_state), D.Event(cond_time), D.Event(cond_bool), D.Event((cond_state, cond_time))][rng.integers(0, 5)]
        ekind = "none" if event is None else "some"
        kw, dkw = {}, dict(t0=0.0, t1=t1, dt0=None, y0=jnp.asarray(x), args=A, max_steps=4096, stepsize_controller=pid8, event=event, saveat=every)
        solver = diffrax.Tsit5()
        if sv is not None:
            kw["solver"] = solver = sv()
        if ctl is not None and mode != "fixed_steps":
            kw["stepsize_controller"] = dkw["stepsize_controller"] = ctl
        if ms is not None and mode in ("cowell_method", "fixed_steps", "adaptive_steps"):
            kw["max_steps"] = dkw["max_steps"] = ms
        lead = ()
        if mode == "cowell_method":
            some = jnp.asarray((t1 * np.array([0.2, 0.7])).astype(dt_))
            save = [
                lambda: every,
                lambda: D.SaveAt(t0=True, t1=True, ts=some),
                lambda: D.SaveAt(ts=some, dense=True),
                lambda: D.SaveAt(t1=True, dense=True),
                lambda: D.SaveAt(t1=True, steps=True, fn=lambda t, y, args: {"y": 2 * y + args["z"], "t": t}),
                lambda: D.SaveAt(subs={"end": diffrax.SubSaveAt(t1=True), "some": diffrax.SubSaveAt(ts=some, t0=True, fn=lambda t, y, args: y[:1])}),
                lambda: D.SaveAt(steps=True, controller_state=True, solver_state=True, made_jump=True),
            ]
            lead = (save[i // 5 % 7 if env.thorough else (0, 2, 4, 1, 5, 3, 6)[i // 5 % 7]](),)
            dkw["saveat"] = lead[0]
            if rng.random() < 0.6:
                kw["dt0"] = dkw["dt0"] = float(dt_(t1 / rng.integers(5, 50)))
        elif mode == "fixed_steps":
            h = float(dt_(t1 / rng.uniform(3, 45)))
            lead = (h,)
            dkw.update(dt0=h, stepsize_controller=const)
        elif mode == "custom_steps":
            ts = jnp.asarray((t1 * np.sort(rng.uniform(0, 1, rng.integers(1, 7)))).astype(dt_))
            lead = (ts,)
            dkw.update(saveat=D.SaveAt(ts=ts), max_steps=None)
        elif mode == "to_final":
            dkw.update(saveat=D.SaveAt(t1=True))
        plain = [float, np.asarray, jnp.asarray][rng.integers(0, 3)]
        w = dict(mode=mode, n=N, x0=x, t1=t1, settings=repr({**kw, "lead": lead})[:600], max_steps=dkw["max_steps"], event=ekind)

        def lib():
            return getattr(P, mode)(P.OrbDynx(D.ODETerm(linear), A, event), jnp.asarray(x), plain(t1) if plain is float else plain(dt_(t1)), *lead, **kw)

        try:
            b = diffrax.diffeqsolve(diffrax.ODETerm(linear), solver, **dkw)
        except Exception:  # noqa: BLE001 - the budget does not suffice: refused by both
            ok, a = mon.call("random-settings", lib, witness=w, expect=Exception)
            if ok:
                mon.require("random-settings", isinstance(a, Exception), w, "the integrator refuses these settings", mode + "/refused")
            continue
        ok, a = mon.call("random-settings", lib, witness=w)
        if not ok:
            continue
        sa, sb = ({q: int(s.stats[q]) for q in ("num_steps", "num_accepted_steps", "num_rejected_steps")} for s in (a, b))
        kind_a, kind_b = ([(q.shape, q.dtype) for q in jax.tree_util.tree_leaves((s.ts, s.ys))] for s in (a, b))
        if not mon.require("random-settings", kind_a == kind_b and jax.tree_util.tree_structure((a.ts, a.ys)) == jax.tree_util.tree_structure((b.ts, b.ys)), dict(w, got=repr(kind_a), want=repr(kind_b)), "rows returned", mode + "/rows"):
            continue
        parts = all((getattr(a, q) is None) == (getattr(b, q) is None) for q in ("interpolation", "controller_state", "solver_state", "made_jump"))
        mon.require("random-settings", parts, w, "the parts of the solution asked for", mode + "/parts")
        if b.interpolation is not None and parts:
            for q in (0.13, 0.5, 0.88):
                ya, yb = (np_(s.evaluate(q * b.t0 + (1 - q) * b.t1)) for s in (a, b))
                if np.isfinite(yb).all():
                    mon.judge("random-settings", np.abs(ya - yb).max() / (1 + np.abs(yb).max()), 1e-8 if env.x64 else 1e-3, dict(w, at=q), mode + "/dense")
        if b.ts is None or not isinstance(b.ys, jax.Array):
            for ya, yb in zip(jax.tree_util.tree_leaves((a.ts, a.ys)), jax.tree_util.tree_leaves((b.ts, b.ys))):
                ya, yb = np_(ya), np_(yb)
                fin = np.isfinite(yb)
                if mon.require("random-settings", not env.x64 or np.array_equal(np.isfinite(ya), fin), dict(w, got=ya, want=yb), "rows in use", mode + "/used"):
                    fin &= np.isfinite(ya)
                    mon.judge("random-settings", (np.abs(ya - yb)[fin] / (1 + np.abs(yb[fin]).max(initial=0))).max(initial=0), 1e-9 if env.x64 else 1e-3, dict(w, got=ya, want=yb), mode + "/parts")
            continue
        ta, ya, tb, yb = (np_(q) for q in (a.ts, a.ys, b.ts, b.ys))
        mon.require("random-settings", bool(a.result == b.result), dict(w, got=str(a.result), want=str(b.result)), "outcome of the propagation", mode + "/result")
        ea, eb = (jax.tree_util.tree_leaves(s.event_mask) for s in (a, b))
        if env.x64:
            mon.require("random-settings", sa == sb, dict(w, got=sa, want=sb), "number of steps taken and rejected", mode + "/" + ekind)
            mon.require("random-settings", [bool(q) for q in ea] == [bool(q) for q in eb], dict(w, got=repr(ea), want=repr(eb)), "which event stopped the propagation", mode + "/event")
        fin = np.isfinite(tb)
        if np.array_equal(np.isfinite(ta), fin) and fin.any():
            tol = 1e-9 if env.x64 else 3e-4
            mon.judge("random-settings", np.abs(ya[fin] - yb[fin]).max(-1) / (1 + np.abs(yb[fin]).max()) + np.abs(ta[fin] - tb[fin]) / abs(t1) * (1 if env.x64 else 0), tol, dict(t=tb[fin], y=yb[fin]), mode)
        else:
            mon.require("random-settings", not env.x64 or np.array_equal(np.isfinite(ta), fin), dict(w, got=ta, want=tb), "rows in use", mode + "/used")

    # ---------------------------------------------------------------- configuration object
    term = D.ODETerm(two_body)
    od = P.OrbDynx(term)
    mon.require("config", od.args == {"mu": 1.0} and od.event is None and od.terms is term, dict(args=od.args), "defaults of the configuration", "defaults")
    mon.require("config", tuple(P.OrbDynx(term, {"mu": 2.0}, ev)) == (term, {"mu": 2.0}, ev), {}, "terms, args, event in this order", "order")
    x = jnp.asarray(np.array([1, 0, 0, 0, 1.1, 0.1], dt_))
    for name, f in modes.items():
        a = mon.call("config", f, P.OrbDynx(term), x, jnp.asarray(dt_(2.0)), witness=dict(mode=name))
        b = mon.call("config", f, P.OrbDynx(term, args={"mu": jnp.asarray(dt_(1.0))}, event=None), x, jnp.asarray(dt_(2.0)), witness=dict(mode=name))
        if a[0] and b[0]:
            ya, yb = np_(a[1].ys), np_(b[1].ys)
            fin = np.isfinite(yb)
            mon.require("config", np.array_equal(np.isfinite(ya), fin) and np.allclose(ya[fin], yb[fin], rtol=1e-9 if env.x64 else 1e-4, atol=1e-9 if env.x64 else 1e-4), dict(mode=name), "the default configuration has mu = 1", name)
    mon.require("config", P.OrbDynx(term).args == {"mu": 1.0} and set(P.OrbDynx(term).args) == {"mu"}, dict(args=P.OrbDynx(term).args), "default arguments unchanged after use", "isolated")
