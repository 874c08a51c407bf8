"""C08: bounded progress - every solver and propagator returns, whatever the inputs in its batch."""

import numpy as np

from .. import gen, oracle as O, table as T
from . import c05, c06, c07

LD = np.longdouble


def run(mon, env, adx):
    import jax
    import jax.numpy as jnp

    rng = env.rng

    def returned(monitor, f, args, shape, reg, **kw):
        ok, out = mon.call(monitor, f, *args, witness=dict(regime=reg, first=[np.asarray(a).reshape(-1)[:3] for a in args]), **kw)
        if ok:
            out = jax.tree_util.tree_leaves(out)
            mon.require(monitor, all(np.shape(o) == shape for o in out), dict(regime=reg, calls=mon.calls, shape=[list(np.shape(o)) for o in out]), "result of the right shape", regime=reg)
        return ok

    K = ("deltat", "alpha", "r0", "sigma0", "mu")
    fu = jax.jit(jax.vmap(adx.solve_kepler_uni))
    fe = jax.jit(jax.vmap(adx.solve_kepler_elps))
    fh = jax.jit(jax.vmap(adx.solve_kepler_hypb))
    n = 4000
    for rnd in range(env.n(6, 80)):
        lab, a = c07.inputs(rng, n, env.dtype, many=1e4)
        returned("universal", fu, [a[k] for k in K], (n,), "valid orbits")
        _, _, M, e = c05.inputs(rng, n, env.dtype)
        returned("elliptic", fe, [M, e], (n,), "valid")
        _, _, N, e = c06.inputs(rng, n, env.dtype)
        returned("hyperbolic", fh, [N, e], (n,), "valid")
    # arbitrary bit patterns: unphysical combinations, infinities, NaN, subnormals, huge values
    for rnd in range(env.n(6, 60)):
        def wild(signed=True):
            w = T.logu(rng, n, -30, 30, signed)
            w = np.where(rng.random(n) < 0.3, T.logu(rng, n, -2, 2, signed), w)
            w = np.where(rng.random(n) < 0.02, np.inf, w)
            w = np.where(rng.random(n) < 0.02, np.nan, w)
            w = np.where(rng.random(n) < 0.02, 0.0, w)
            with np.errstate(all="ignore"):
                return w.astype(env.dtype)

        returned("universal", fu, [wild(), wild(), wild(False), wild(), wild(False)], (n,), "wild")
        returned("elliptic", fe, [wild(), wild(False)], (n,), "wild")
        returned("hyperbolic", fh, [wild(), wild(False)], (n,), "wild")
        # unbound mixture of moderate, unphysical values
        m = lambda: rng.normal(size=n).astype(env.dtype) * 3
        returned("universal", fu, [m() * 10, m(), np.abs(m()), m(), np.abs(m())], (n,), "unphysical")
        returned("elliptic", fe, [m() * 10, np.abs(m())], (n,), "unphysical")
        returned("hyperbolic", fh, [m() * 10, np.abs(m())], (n,), "unphysical")
    # tolerances that can never be met: the iteration budget bounds the work
    for tol in (0.0, -1.0, 1e-300 if env.x64 else 1e-38, float("nan")):
        for mi in (0, 1, 2, 20, 1000):
            lab, a = c07.inputs(rng, 256, env.dtype)
            returned("budget", jax.jit(jax.vmap(lambda *b: adx.solve_kepler_uni(*b, tol, mi))), [a[k] for k in K], (256,), f"universal/max_iter={mi}")
            _, _, M, e = c05.inputs(rng, 256, env.dtype)
            returned("budget", jax.jit(jax.vmap(lambda M, e: adx.solve_kepler_elps(M, e, tol, mi))), [M, e], (256,), f"elliptic/max_iter={mi}")
            _, _, N, e = c06.inputs(rng, 256, env.dtype)
            returned("budget", jax.jit(jax.vmap(lambda N, e: adx.solve_kepler_hypb(N, e, tol, mi))), [N, e], (256,), f"hyperbolic/max_iter={mi}")
    # kepler: hostile batches over epochs and over orbits, jitted and nested
    fk = jax.jit(jax.vmap(lambda t, r, v, mu: tuple(x[0] for x in adx.prop.kepler(t, r, v, mu))))
    gk = jax.jit(adx.prop.kepler)
    for rnd in range(env.n(4, 60)):
        o = gen.orbits(rng, n, env.dtype)
        _, dt = gen.times(rng, o, env.dtype, many=1e4)
        bad = rng.random(n) < 0.05
        v = np.where(bad[:, None], env.dtype(np.nan), o["v"]) if rnd % 2 else o["v"]
        returned("kepler", fk, [dt, o["r"], v, o["mu"]], (n, 3), "batch" + ("/nan rows" if rnd % 2 else ""))
        r, v = rng.normal(size=(2, n, 3)).astype(env.dtype)
        returned("kepler", fk, [(rng.normal(size=n) * 100).astype(env.dtype), r, v, np.ones(n, env.dtype)], (n, 3), "random states")
        ts = T.logu(rng, 1000, -6, 4, True).astype(env.dtype)
        ts[::97] = np.nan
        returned("kepler", gk, [ts, o["r"][0], o["v"][0], o["mu"][0]], (1000, 3), "epochs with NaN")
    if not env.x64:
        # two orbits that kept the batched solver from terminating before its repair
        row = np.asarray([[148882.671875, -0.0006937120924703777, 2.668469190597534, -1.455735206604004],
                          [324.43328857421875, -0.041847992688417435, 7.509336471557617, -2.9404406547546387]], np.float32)
        returned("universal", jax.jit(jax.vmap(lambda *b: adx.solve_kepler_uni(*b, 1))), list(row.T), (2,), "reproducer")
    # rows of a batch do not keep each other from converging: a NaN neighbour changes nothing
    lab, a = c07.inputs(rng, n, env.dtype, units=T.BIG)
    b = {k: v.copy() for k, v in a.items()}
    hit = rng.random(n) < 0.1
    b["deltat"][hit] = np.nan
    ok1, x = mon.call("neighbours", fu, *[a[k] for k in K])
    ok2, y = mon.call("neighbours", fu, *[b[k] for k in K])
    if ok1 and ok2:
        x, y = np.asarray(x)[~hit], np.asarray(y)[~hit]
        same = (x == y) | (np.isnan(x) & np.isnan(y))
        d = np.where(same, 0, np.abs(O.ld(x) - O.ld(y)))
        mon.judge("neighbours", d, 256 * env.eps * np.abs(O.ld(x)), {k: v[~hit] for k, v in a.items()}, lab[~hit])
    # numerical propagation: the step budget bounds the work, and exceeding it is reported
    if env.x64:
        import diffrax
        import optimistix as optx

        dq = adx.diffeq if hasattr(adx, "diffeq") else __import__("astrodynx.diffeq", fromlist=["x"])

        def vf(t, x, args):
            return jnp.concatenate([x[3:], adx.gravity.point_mass_grav(t, x, args)])

        od = adx.prop.OrbDynx(dq.ODETerm(vf))
        x0 = jnp.asarray([1.0, 0, 0, 0, 1.0, 0])
        for nm, f in (
            ("fixed_steps", lambda ms: adx.prop.fixed_steps(od, x0, 1e6, 1e-3, max_steps=ms)),
            ("adaptive_steps", lambda ms: adx.prop.adaptive_steps(od, x0, 1e6, max_steps=ms)),
            ("cowell_method", lambda ms: adx.prop.cowell_method(od, x0, 1e6, dq.SaveAt(t1=True), max_steps=ms)),
        ):
            for ms in (1, 7, 64):
                ok, ex = mon.call("step-budget", f, ms, witness=dict(f=nm, max_steps=ms), expect=Exception)
                if ok:
                    mon.require("step-budget", isinstance(ex, Exception), dict(f=nm, max_steps=ms), "running out of steps is an error, not a result", regime=nm)
        # the budget is the caller's, exactly: what n steps finish, n - 1 steps do not
        for rep in range(env.n(5, 40)):
            t1 = float(T.logu(rng, 1, 0, 2)[0]) * rng.choice([-1.0, 1.0])
            dt = t1 / int(T.logu(rng, 1, 0.31, [1, 2.5][rep % 2])[0])
            y0 = jnp.asarray(x0 * (1 + 0.1 * rng.uniform(-1, 1, 6)))
            # every other one watches for an event that never happens
            far = dq.Event(adx.events.radius_islow, [None, optx.Newton(1e-8, 1e-8)][rep // 2 % 2]) if rep % 2 else None
            od = adx.prop.OrbDynx(dq.ODETerm(vf), {"mu": 1.0, "rmin": 1e-3}, far)
            for nm, f in (
                ("fixed_steps", lambda ms: adx.prop.fixed_steps(od, y0, t1, dt, max_steps=ms)),
                ("adaptive_steps", lambda ms: adx.prop.adaptive_steps(od, y0, t1, max_steps=ms)),
                ("cowell_method", lambda ms: adx.prop.cowell_method(od, y0, t1, dq.SaveAt(t1=True), max_steps=ms)),
            ):
                w = dict(f=nm, t1=t1, dt=dt, x0=np.asarray(y0))
                ok, sol = mon.call("step-budget", f, 4096, witness=w)
                if not ok:
                    continue
                need = int(sol.stats["num_steps"])
                for ms in {need, need + int(rng.integers(1, 50))}:
                    ok, s2 = mon.call("step-budget", f, ms, witness=dict(w, max_steps=ms, needed=need))
                    if ok:
                        mon.require("step-budget", int(s2.stats["num_steps"]) == need, dict(w, max_steps=ms, needed=need), "number of steps within a sufficient budget", regime=nm)
                for ms in {need - 1, int(rng.integers(1, max(need, 2)))} - {0, need}:
                    ok, ex = mon.call("step-budget", f, ms, witness=dict(w, max_steps=ms, needed=need), expect=Exception)
                    if ok:
                        mon.require("step-budget", isinstance(ex, Exception), dict(w, max_steps=ms, needed=need), "running out of steps is an error, not a result", regime=nm)
