"""C25: derivatives are the derivatives of the exact result.

Oracle: fourth-order central differences of the extended-precision references, one random argument
and direction per event; allowed error from the conditioning of the derivative itself.
"""

import numpy as np

from .. import gen, oracle as O, table as T

LD = np.longdouble
C = 1000
WIDER = {"rv2coe": 10, "dxdx0": 10, "kepler": 5}


def moved(fn, inp, arg, dirs, h):
    """Inputs moved by h along each event's direction."""
    out = dict(inp)
    for i, q in enumerate(fn.names):
        m = (arg == i).astype(LD)
        x = inp[q]
        if x.ndim > 1:
            m = m[:, None]
        out[q] = x + LD(h) * m * dirs[q]
    return out


def diff(k, a, b):
    d = a - b
    if k in ("a", "A"):
        d = d - 2 * O.PI * np.rint(d / (2 * O.PI))
    return d


def dref(fn, inp, arg, dirs, h):
    with np.errstate(all="ignore"):
        f = {s: fn.refs(moved(fn, inp, arg, dirs, s * h)) for s in (-2, -1, 1, 2)}
        return [(8 * diff(k, f[1][j], f[-1][j]) - diff(k, f[2][j], f[-2][j])) / (12 * LD(h)) for j, (k, _) in enumerate(fn.outs)]


def size(d):
    d = np.abs(d)
    while d.ndim > 1:
        d = d.max(axis=-1)
    return d


def natural(q, inp, y):
    """How far an argument that is zero moves: the scale of its own event where the result curves."""
    p = {k: O.ld(v) for k, v in inp.items()}
    with np.errstate(all="ignore"):
        if q == "ts" and "r0_vec" in p:
            z = np.sqrt(np.sum(p["r0_vec"] ** 2, axis=1) / np.sum(p["v0_vec"] ** 2, axis=1))
        elif q == "deltat" and {"r0", "mu", "alpha"} <= set(p):
            z = np.minimum(p["r0"] ** 1.5, np.abs(p["alpha"]) ** -1.5) / np.sqrt(p["mu"])
        elif q == "sigma0" and "r0" in p:
            z = np.sqrt(p["r0"])
        elif q == "chi" and "alpha" in p:
            z = 1 / np.sqrt(np.abs(p["alpha"]))
        else:
            return y
    return np.where(np.isfinite(z) & (z > 0), z, y)


def directions(fn, inp, rng, n):
    dirs = {}
    for q, k, _ in fn.args:
        x = O.ld(inp[q])
        if k == "v":
            u = rng.normal(size=(n, 3))
            u /= np.linalg.norm(u, axis=1, keepdims=True)
            dirs[q] = u * np.sqrt(np.sum(x * x, axis=1, keepdims=True))
        else:
            nz = np.abs(x[x != 0])
            y = np.where((x == 0) & (q in T.ZERO), np.median(nz) if nz.size else 1, x)
            y = np.where(x == 0, natural(q, inp, y), y)
            dirs[q] = y * rng.uniform(0.3, 1, n) * rng.choice([-1, 1], n)
            if q == "alpha" and "chi" in inp:
                c = O.ld(inp["chi"])
                small = np.abs(x * c * c) < 1
                dirs[q] = np.where(small & (c != 0), 0.3 / np.where(c == 0, 1, c * c), dirs[q])
    return dirs


def run(mon, env, adx):
    import jax
    import jax.numpy as jnp

    rng, F = env.rng, env.dtype
    if env.part == 2:
        gravity(mon, env, adx)
        event_condition(mon, env, adx)
        propagators(mon, env, adx)
    heavy = ("kepler", "dxdx0")
    table = [(nm, fn) for i, (nm, fn) in enumerate(T.TABLE.items()) if fn.smooth and (2 if nm in heavy else i % 2) == env.part]

    for nm, fn in table:
        f0 = fn.get(adx)
        K = len(fn.names)
        n = 120 if nm not in heavy else 60

        def call(args):
            out = f0(*args)
            ls = list(out) if fn.multi else [out]
            if fn.blocks:
                ls = T.split_blocks(out)
            return [jnp.reshape(x, x.shape[:-1]) if k in ("V", "A") and x.ndim == 1 and x.shape[-1] == 1 else x.reshape(-1) if k == "K" else x for (k, _), x in zip(fn.outs, ls)]

        jv = jax.jit(jax.vmap(lambda a, d: jax.jvp(call, (a,), (d,))))
        # reverse mode: cotangents w, dotted with the direction
        vj = jax.jit(jax.vmap(lambda a, w: jax.vjp(call, a)[1](w)[0]))
        for _ in range(env.n(2, 24)):
            inp = T.with_zeros(fn, fn.make(rng, n, F), rng, n)
            arg = rng.integers(0, K, n)
            for i, q in enumerate(fn.names):  # the argument that is zero, more often than by chance
                if q in T.ZERO:
                    arg = np.where((inp[q] == 0) & (rng.random(n) < 0.7), i, arg)
            L = {q: O.ld(inp[q]) for q in fn.names}
            dirs = directions(fn, inp, rng, n)
            dirs = {q: O.ld(np.where((arg == i)[:, None] if dirs[q].ndim > 1 else arg == i, dirs[q], 0).astype(F)) for i, q in enumerate(fn.names)}
            h = 1e-6
            D = dref(fn, L, arg, dirs, h)
            D2 = dref(fn, L, arg, dirs, 0.4 * h)
            refs = fn.refs(inp)
            cond = T.conditioning(fn, inp, refs, rng)
            # conditioning of the derivative
            cd = [np.zeros(n, LD) for _ in fn.outs]
            for q in fn.names:
                x = L[q]
                for c in range(3 if x.ndim > 1 else 1):
                    px = x.copy()
                    if x.ndim > 1:
                        px[:, c] += LD(1e-4) * np.sqrt(np.sum(x * x, -1))
                    else:
                        px = x * (1 + LD(1e-4))
                    Dp = dref(fn, {**L, q: px}, arg, dirs, h)
                    for j in range(len(cd)):
                        cd[j] = cd[j] + size(Dp[j] - D[j]) / LD(1e-4)
            names = np.array(fn.names, object)[arg]
            w = dict(function=nm, **{q: inp[q][0] for q in fn.names})
            a = [jnp.asarray(inp[q]) for q in fn.names]
            d = [jnp.asarray(dirs[q].astype(F)) for q in fn.names]
            ok, out = mon.call("forward", jv, a, d, witness=w)
            if not ok:
                break
            val, tan = out
            lim = float(np.finfo(F).max)
            good, tols = [], []
            for j, (k, _) in enumerate(fn.outs):
                fd = size(D[j] - D2[j])
                sc = size(D[j]) + cond[j]
                # rounding of the reference differences themselves
                noise = LD(2e-18) * T.size_of(k, refs[j]) / LD(0.4 * h)
                # the direction is as long as the argument: a formula whose value is right to rounding
                # may still cancel terms of the size of the result when differentiated
                cancel = 64 * env.eps * T.size_of(k, refs[j])
                tol = C * WIDER.get(nm, 1) * env.eps * (cd[j] + sc) + cancel + 4 * fd + noise
                with np.errstate(all="ignore"):
                    ok_ = (fd < 1e-7 * sc + 1e-12 * T.size_of(k, refs[j])) & (sc.astype(float) < 1e-4 * lim) & (cd[j].astype(float) * env.eps < 0.1 * np.maximum(sc.astype(float), 1e-300))
                    if nm in ("true_anomaly", "argument_of_periapsis"):
                        # the unsigned angle between two vectors has a kink where they align
                        ok_ &= (O.ld(refs[j]) > 1e-3) & (O.ld(refs[j]) < O.PI - 1e-3)
                    if not env.x64:
                        # squares and cubes of the inputs must stay inside the single-precision range
                        ok_ &= in_range(fn, inp)
                good.append(ok_)
                tols.append(tol)
                W = {**{q: inp[q][ok_] for q in fn.names}, "got": np.asarray(tan[j])[ok_], "ref": D[j][ok_].astype(float), "argument": names[ok_].astype(str) if 0 else arg[ok_], "function": nm}
                if ok_.any():
                    got = np.asarray(tan[j]).astype(LD)
                    if got.shape != D[j].shape:
                        mon.require("forward", False, dict(function=nm, shape=list(got.shape)), "shape of the derivative")
                        continue
                    mon.judge("forward", size(got - D[j])[ok_], tol[ok_], W, np.array([f"{nm}/{x}" for x in names[ok_]], object))
            # reverse mode with random cotangents
            ws = [rng.choice([-1.0, 1.0], np.shape(v)).astype(F) for v in val]
            # scale cotangents so that outputs of different size contribute alike
            ws = [wt / np.maximum(np.asarray(size(D[j]) + cond[j] + T.size_of(fn.outs[j][0], refs[j])).astype(F), np.finfo(F).tiny * 1e6).reshape((n,) + (1,) * (wt.ndim - 1)) for j, wt in enumerate(ws)]
            ws = [np.where(np.isfinite(x), x, 0).astype(F) for x in ws]
            ok, out = mon.call("reverse", vj, a, [jnp.asarray(x) for x in ws], witness=w)
            if not ok:
                break
            dot = np.zeros(n, LD)
            for q, g in zip(fn.names, out):
                t = np.asarray(g).astype(LD) * dirs[q]
                dot = dot + np.where(dirs[q] == 0, 0, t).reshape(n, -1).sum(1)
            ref = np.zeros(n, LD)
            tol = np.zeros(n, LD)
            allgood = np.ones(n, bool)
            for j in range(len(fn.outs)):
                ww = O.ld(ws[j])
                t = (ww * D[j]).reshape(n, -1)
                ref = ref + t.sum(1)
                m = np.abs(ww).reshape(n, -1).max(1)
                tol = tol + m * tols[j] * t.shape[1] + m * (size(D[j]) + cond[j]) * 64 * env.eps * t.shape[1]
                allgood &= good[j]
            if allgood.any():
                W = {**{q: inp[q][allgood] for q in fn.names}, "got": dot[allgood].astype(float), "ref": ref[allgood].astype(float), "argument": arg[allgood], "function": nm}
                mon.judge("reverse", np.abs(dot - ref)[allgood], tol[allgood], W, np.array([f"{nm}/{x}" for x in names[allgood]], object))
            mon.judge("reached", [0 if sum(g.sum() for g in good) > 0.25 * n * len(good) else 1], [0], dict(function=nm, judged=np.array([sum(g.sum() for g in good)])), nm) if env.x64 else None

        # one event, not compiled
        inp = fn.make(rng, 4, F)
        fl = [jnp.asarray(inp[q][0]) for q in fn.names]
        ok, _ = mon.call("eager", lambda *a: jax.grad(lambda b: sum(jnp.sum(x) for x in call(b)))(list(a)), *fl, witness=dict(function=nm, **{q: inp[q][0] for q in fn.names}))
        if ok:
            mon.require("eager", all(np.isfinite(np.asarray(x)).all() for x in _) or not env.x64, dict(function=nm, **{q: inp[q][0] for q in fn.names}), "finite derivatives")


def in_range(fn, inp):
    n = len(inp[fn.names[0]])
    ok = np.ones(n, bool)
    hi = 1e2 if fn.name in ("dxdx0", "pvpr0", "pvpv0", "prpr0", "prpv0") else 1e5
    for q in fn.names:
        x = np.abs(inp[q].astype(float)).reshape(n, -1).max(1)
        ok &= (x < hi) & ((x > 1 / hi) | (x == 0))
    return ok


def gravity(mon, env, adx):
    import jax
    import jax.numpy as jnp

    rng, F = env.rng, env.dtype
    g = adx.gravity
    n = 200
    for nm, deg in (("point_mass_grav", 0), ("j2_acc", 2), ("j3_acc", 3), ("j4_acc", 4)):
        f = getattr(g, nm)

        def call(x, mu, J, R):
            A = {"mu": mu, "R_eq": R}
            if deg:
                A[f"J{deg}"] = J
            return f(0.0, x, A)

        # a parameter the model does not have has no derivative
        jv = jax.jit(jax.vmap(lambda a, d: jax.jvp(lambda b: call(*b), (a,), (d,))[1]))
        vj = jax.jit(jax.vmap(lambda a, w: jax.vjp(lambda b: call(*b), a)[1](w)[0]))
        for _ in range(env.n(2, 20)):
            R = 10.0 ** rng.uniform(-0.5, 0.5, n)
            u = rng.normal(size=(n, 3))
            u /= np.linalg.norm(u, axis=1, keepdims=True)
            x = (u * (R * rng.uniform(1, 5, n))[:, None]).astype(F)
            a = [x, rng.uniform(0.5, 2, n).astype(F), rng.uniform(-1, 1, n).astype(F), R.astype(F)]
            d = [np.zeros_like(q) for q in a]
            which = rng.integers(0, 4 if deg else 2, n)
            dx = rng.normal(size=(n, 3)) * R[:, None]
            d[0] = np.where((which == 0)[:, None], dx, 0).astype(F)
            for i in (1, 2, 3):
                d[i] = np.where(which == i, rng.uniform(-1, 1, n), 0).astype(F)
            ld = [O.ld(q) for q in a]
            dd = [O.ld(q) for q in d]

            def ref(b):
                return O.zonal_acc(b[0], b[1], b[2] if deg else np.ones(n, LD), b[3], deg)

            h = 1e-4

            def fd(b):
                v = {s: ref([q + LD(s * h) * e for q, e in zip(b, dd)]) for s in (-2, -1, 1, 2)}
                return (8 * (v[1] - v[-1]) - (v[2] - v[-2])) / (12 * LD(h))

            D = fd(ld)
            base = np.abs(ld[1]) * (np.abs(ld[2]) * (ld[3] / O.norm(ld[0])) ** deg if deg else 1) / O.norm(ld[0]) ** 2
            big = np.abs(ld[1]) * ((ld[3] / O.norm(ld[0])) ** deg if deg else 1) / O.norm(ld[0]) ** 2
            stp = sum(np.abs(e).reshape(n, -1).max(1) for e in dd)
            tol = env.eps * 4000 * (base + big) * (1 + stp) * (1 + 1 / O.norm(ld[0])) * (1 + 1 / ld[3]) + 1e-11 * (base + big) * (1 + stp)
            w = dict(function=nm, x=x[0])
            ok, o = mon.call("forward", jv, [jnp.asarray(q) for q in a], [jnp.asarray(q) for q in d], witness=w)
            W = dict(x=x, mu=a[1], J=a[2], R=a[3], argument=which, function=nm)
            if ok:
                mon.judge("forward", np.abs(O.ld(np.asarray(o)) - D).max(1), tol, W, np.array([f"{nm}/{q}" for q in which], object))
            wt = rng.choice([-1.0, 1.0], (n, 3)).astype(F)
            ok, o = mon.call("reverse", vj, [jnp.asarray(q) for q in a], jnp.asarray(wt), witness=w)
            if ok:
                dot = sum((O.ld(np.asarray(q)) * e).reshape(n, -1).sum(1) for q, e in zip(o, dd))
                mon.judge("reverse", np.abs(dot - (wt * D).sum(1)), 4 * tol, W, nm)


def event_condition(mon, env, adx):
    """The radius event's condition: unit radial gradient, minus one along the threshold."""
    import jax

    rng, F = env.rng, env.dtype
    f = adx.events.radius_islow
    rev = jax.jit(jax.vmap(jax.grad(lambda x, q: f(0.0, x, {"rmin": q}), argnums=(0, 1))))
    fwd = jax.jit(jax.vmap(lambda x, q, d, e: jax.jvp(lambda x, q: f(0.0, x, {"rmin": q}), (x, q), (d, e))[1]))
    for _ in range(env.n(4, 20)):
        n = 200
        k = int(rng.choice([3, 6, 7, 42]))
        x = (rng.normal(size=(n, k)) * 10.0 ** rng.uniform(-3, 6, n)[:, None]).astype(F)
        q = (10.0 ** rng.uniform(-3, 6, n)).astype(F)
        d, e = rng.normal(size=(n, k)).astype(F), rng.normal(size=n).astype(F)
        u = O.ld(x[:, :3]) / O.norm(O.ld(x[:, :3]))[:, None]
        w = dict(x=x, rmin=q)
        ok, out = mon.call("forward", fwd, x, q, d, e, witness=dict(function="radius_islow", x=x[0], rmin=q[0]))
        if ok:
            mon.judge("forward", np.abs(O.ld(np.asarray(out)) - (O.dot(u, O.ld(d[:, :3])) - O.ld(e))), 32 * env.eps * (O.norm(O.ld(d)) + np.abs(e)), w, f"radius_islow/{k}")
        ok, out = mon.call("reverse", rev, x, q, witness=dict(function="radius_islow", x=x[0], rmin=q[0]))
        if ok:
            g, h = (O.ld(np.asarray(o)) for o in out)
            err = np.abs(g[:, :3] - u).max(1) + np.abs(g[:, 3:]).sum(1) + np.abs(h + 1)
            mon.judge("reverse", err, 32 * env.eps, w, f"radius_islow/{k}")


def propagators(mon, env, adx):
    """Reverse mode through the step-limited numerical propagators."""
    import diffrax
    import jax
    import jax.numpy as jnp

    rng, F = env.rng, env.dtype
    P, g = adx.prop, adx.gravity

    def field(t, x, args):
        return jnp.concatenate([x[3:], g.point_mass_grav(t, x, args)])

    term = diffrax.ODETerm(field)
    q = 1e-10 if env.x64 else 1e-6
    pid = diffrax.PIDController(rtol=q, atol=q)
    modes = {
        "to_final": lambda od, x, t: P.to_final(od, x, t, stepsize_controller=pid).ys[-1],
        "fixed_steps": lambda od, x, t: P.fixed_steps(od, x, t, t / 256, max_steps=260, solver=diffrax.Dopri8()).ys[256],
        "adaptive_steps": lambda od, x, t: last(P.adaptive_steps(od, x, t, max_steps=400, stepsize_controller=pid)),
        "cowell_method": lambda od, x, t: P.cowell_method(od, x, t, diffrax.SaveAt(t1=True), stepsize_controller=pid).ys[-1],
    }

    def last(s):
        i = jnp.sum(jnp.isfinite(s.ts)) - 1
        return s.ys[i]

    names = list(modes)
    for nm in names if env.thorough else names[:1] + [names[1 + rng.integers(3)]]:
        f = modes[nm]

        def final(x, mu, t, w):
            return jnp.sum(w * f(P.OrbDynx(terms=term, args={"mu": mu}), x, t))

        G = jax.jit(jax.value_and_grad(final, argnums=(0, 1, 2)))
        for _ in range(env.n(6, 24)):
            o = gen.orbits(rng, 1, np.float64, e_regimes=("low", "moderate", "hyperbolic"), units=("canonical",))
            r, v, mu = o["r"], o["v"], o["mu"]
            T0 = np.sqrt(np.linalg.norm(r, axis=1) ** 3 / mu)
            if nm == "fixed_steps":  # steps short enough for the closest part of the orbit
                T0 = np.minimum(T0, 3 * o["tscale"])
            t = T0 * rng.uniform(0.3, 3) * rng.choice([-1, 1])
            x = np.concatenate([r, v], 1).astype(F)
            mu, t = mu.astype(F), t.astype(F)
            w = rng.choice([-1.0, 1.0], 6).astype(F)
            ok, out = mon.call("propagation", G, jnp.asarray(x[0]), jnp.asarray(mu[0]), jnp.asarray(t[0]), jnp.asarray(w), witness=dict(mode=nm, x=x[0], mu=mu, t=t))
            if not ok:
                break
            gx, gm, gt = [np.asarray(y).astype(LD) for y in out[1]]
            X, M, Tt = O.ld(x), O.ld(mu), O.ld(t)

            def val(X, M, Tt):
                a, b, _ = O.propagate(X[:, :3], X[:, 3:], Tt, M)
                return (O.ld(w) * np.concatenate([a, b], 1)[0]).sum()

            h = LD(1e-6)
            R = np.zeros(6, LD)
            for i in range(6):
                s = h * (np.linalg.norm(x[0, :3].astype(float)) if i < 3 else np.linalg.norm(x[0, 3:].astype(float)))
                e = np.zeros((1, 6), LD)
                e[0, i] = s
                R[i] = (val(X + e, M, Tt) - val(X - e, M, Tt)) / (2 * s)
            rm = (val(X, M * (1 + h), Tt) - val(X, M * (1 - h), Tt)) / (2 * h * M[0])
            rt = (val(X, M, Tt * (1 + h)) - val(X, M, Tt * (1 - h))) / (2 * h * Tt[0])
            sc = np.abs(R).max() + abs(rm) + abs(rt)
            tol = (3e-6 if env.x64 else 2e-2) * sc
            W = dict(x=x, mu=mu, t=t, mode=nm)
            mon.judge("propagation", [np.abs(gx - R).max()], [tol], W, f"{nm}/state")
            mon.judge("propagation", [abs(gm - rm)], [tol], W, f"{nm}/mu")
            mon.judge("propagation", [abs(gt - rt)], [tol], W, f"{nm}/time")
