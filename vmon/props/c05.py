"""C05: elliptic Kepler solver returns the root, to the requested tolerance, for every M and 0 <= e < 1."""

import numpy as np

from .. import gen, oracle as O, table as T

LD = np.longdouble


def inputs(rng, n, dtype):
    f32 = dtype == np.float32
    lab, e = gen.pick_e(rng, n, T.ELL + ("near_parabolic_ell",), f32)
    kind = rng.integers(0, 8, n)
    M = rng.uniform(-np.pi, np.pi, n)
    M = np.where(kind == 1, T.logu(rng, n, -9, 0, True), M)
    M = np.where(kind == 2, rng.uniform(-40, 40, n), M)
    M = np.where(kind == 3, T.logu(rng, n, 1, 3 if f32 else 6, True), M)
    M = np.where(kind == 4, rng.integers(-12, 13, n) * np.pi / 2, M)
    M = np.where(kind == 5, np.pi * rng.choice([-1, 1], n) + T.logu(rng, n, -8, -1, True), M)
    M = np.where(kind == 6, 2 * np.pi * rng.integers(-20, 21, n) + T.logu(rng, n, -7, -1, True), M)
    M = np.where(rng.random(n) < 0.02, 0.0, M)
    e = np.where(rng.random(n) < 0.02, 0.0, e)
    e = e.astype(dtype)
    e = np.where(e >= 1, np.nextafter(dtype(1), dtype(0)), e)
    return lab, kind, M.astype(dtype), e


def judge(mon, env, name, M, e, tol, got, reg):
    X, EE, MM = O.ld(got), O.ld(e), O.ld(M)
    f = X - EE * np.sin(X) - MM
    # residual the best float can reach plus the tolerance asked for
    floor = 32 * env.eps * (np.abs(X) * np.abs(1 - EE * np.cos(X)) + np.abs(MM) + EE * np.abs(np.sin(X)) + np.abs(X) * 0)
    w = dict(M=M, e=e, tol=np.broadcast_to(np.asarray(tol, float), M.shape), E=got)
    good = mon.judge(name, np.abs(f), np.asarray(tol, LD) + floor, w, reg)
    # same half turn as M: E and M agree at every multiple of pi and E - M has |.| <= e
    slack = 8 * env.eps * (1 + np.abs(MM))
    mon.judge(name, np.maximum(np.abs(X - MM) - EE, 0), np.asarray(tol, LD) + slack, w, reg)
    return good


def run(mon, env, adx):
    import jax
    import jax.numpy as jnp

    rng = env.rng
    f = jax.jit(jax.vmap(adx.solve_kepler_elps))
    n = 4000
    for _ in range(env.n(6, 100)):
        lab, kind, M, e = inputs(rng, n, env.dtype)
        ok, E = mon.call("root", f, M, e)
        if ok:
            reg = np.array([f"{a}/{b}" for a, b in zip(lab, kind)], object)
            judge(mon, env, "root", M, e, 1e-6, np.asarray(E), reg)
            # accuracy: default tolerance delivers the floating-point root for moderate eccentricity
            q = e < 0.9
            ref = O.kepler_E(M[q], e[q])
            w = dict(M=M[q], e=e[q], E=np.asarray(E)[q])
            amp = (np.abs(O.ld(M[q])) + np.abs(ref) + 1) / (1 - O.ld(e[q]))
            mon.judge("value", np.abs(O.ld(np.asarray(E)[q]) - ref), 1e-6 / (1 - O.ld(e[q])) * 0 + 64 * env.eps * amp, w, reg[q])
    # requested tolerance and iteration budget, given positionally or by keyword
    g = jax.jit(jax.vmap(lambda M, e, t: adx.solve_kepler_elps(M, e, tol=t)))
    for t in (1e-2, 1e-3, 1e-9, 1e-12) if env.x64 else (1e-2, 1e-3, 1e-5):
        lab, kind, M, e = inputs(rng, n, env.dtype)
        ok, E = mon.call("tolerance", g, M, e, np.full(n, t, env.dtype))
        if ok:
            judge(mon, env, "tolerance", M, e, t, np.asarray(E), np.array([f"tol{t}/{a}" for a in lab], object))
    for mi in (30, 60, 200):
        lab, kind, M, e = inputs(rng, 500, env.dtype)
        ok, E = mon.call("tolerance", jax.jit(jax.vmap(lambda M, e: adx.solve_kepler_elps(M, e, 1e-6, mi))), M, e)
        if ok:
            judge(mon, env, "tolerance", M, e, 1e-6, np.asarray(E), np.array([f"max_iter{mi}"] * 500, object))
    # odd symmetry, shift by whole turns, monotone in M, exact special points
    lab, kind, M, e = inputs(rng, n, env.dtype)
    k = rng.integers(-3, 4, n)
    M2 = (O.ld(M) + 2 * O.PI * k).astype(env.dtype)
    ok, out = mon.call("symmetry", jax.jit(lambda M, M2, e: (f(M, e), f(-M, e), f(M2, e))), M, M2, e)
    if ok:
        E, Em, Es = (O.ld(np.asarray(x)) for x in out)
        # error of the root for a residual allowance d: d / f'(E), but never worse than cube-root-like
        d = 1e-6 * (np.asarray(e) > 0.9) + 64 * env.eps * (1 + np.abs(O.ld(M)) + 20)
        amp = d / np.maximum(1 - O.ld(e) * np.cos(E), d ** (LD(2) / 3))
        w = dict(M=M, e=e)
        mon.judge("symmetry", np.abs(E + Em), 4 * amp, w, "odd")
        mon.judge("symmetry", np.abs(Es - E - 2 * O.PI * k), 8 * amp + np.abs(2 * O.PI * k) * env.eps * 8, dict(M=M, e=e, turns=k), "shift")
    for i in range(env.n(20, 200)):
        e1 = np.full(2001, float(gen.pick_e(rng, 1, T.ELL, True)[1][0]), env.dtype)
        Ms = np.sort(rng.uniform(-10, 10, 2001)).astype(env.dtype)
        ok, E = mon.call("monotone", f, Ms, e1)
        if ok:
            E = O.ld(np.asarray(E))
            d = 2e-6 * (e1[1:] > 0.9) + 128 * env.eps * 12
            dec = np.maximum(E[:-1] - E[1:], 0)
            slope = np.maximum(1 - O.ld(e1[1:]) * np.cos(E[1:]), 1e-12)
            mon.judge("monotone", dec, np.minimum(d / slope, 8 * d ** (1 / 3)), dict(M=Ms[1:], e=e1[1:]), "monotone")
    # Python scalars
    for M0, e0 in ((0, 0), (1, 0.5), (3.0, 0.1), (-2, 0.75), (0.0, 0.99), (100.0, 0.3), (np.pi, 0.9), (7, 0)):
        ok, E = mon.call("scalars", adx.solve_kepler_elps, M0, e0)
        if ok and mon.require("scalars", np.shape(E) == (), dict(M=M0, e=e0, shape=list(np.shape(E))), "scalar root"):
            judge(mon, env, "scalars", np.asarray([M0], env.dtype), np.asarray([e0], env.dtype), 1e-6, np.asarray(E)[None], "scalar")
