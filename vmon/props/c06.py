"""C06: hyperbolic Kepler solver returns the root for every N and e > 1."""

import numpy as np

from .. import gen, oracle as O, table as T

LD = np.longdouble


def inputs(rng, n, dtype):
    f32 = dtype == np.float32
    lab, e = gen.pick_e(rng, n, T.HYP + ("near_parabolic_hyp",), f32)
    kind = rng.integers(0, 5, n)
    N = T.logu(rng, n, -9, 1, True)
    N = np.where(kind == 1, rng.uniform(-30, 30, n), N)
    N = np.where(kind == 2, T.logu(rng, n, 1, 4, True), N)
    N = np.where(kind == 3, T.logu(rng, n, 3, 7 if f32 else 12, True), N)
    N = np.where(kind == 4, rng.uniform(-1, 1, n) * 5 * (e - 1), N)
    N = np.where(rng.random(n) < 0.02, 0.0, N)
    e = e.astype(dtype)
    e = np.where(e <= 1, np.nextafter(dtype(1), dtype(2)), e)
    return lab, kind, N.astype(dtype), e


def judge(mon, env, name, N, e, tol, got, reg):
    X, EE, NN = O.ld(got), O.ld(e), O.ld(N)
    with np.errstate(all="ignore"):
        f = EE * np.sinh(X) - X - NN
        floor = 64 * env.eps * (np.abs(X) * (EE * np.cosh(X) - 1) + EE * np.abs(np.sinh(X)) + np.abs(X) + np.abs(NN))
    w = dict(N=N, e=e, tol=np.broadcast_to(np.asarray(tol, float), N.shape), H=got)
    mon.judge(name, np.abs(f), np.asarray(tol, LD) + floor, w, reg)


def run(mon, env, adx):
    import jax

    rng = env.rng
    f = jax.jit(jax.vmap(adx.solve_kepler_hypb))
    n = 4000
    for _ in range(env.n(6, 100)):
        lab, kind, N, e = inputs(rng, n, env.dtype)
        ok, H = mon.call("root", f, N, e)
        if ok:
            H = np.asarray(H)
            reg = np.array([f"{a}/{b}" for a, b in zip(lab, kind)], object)
            judge(mon, env, "root", N, e, 1e-6, H, reg)
            q = (np.abs(N) > 0.02 * (e - 1) + 1e-2) & (e > 1.05)
            ref = O.kepler_H(N[q], e[q])
            df = O.ld(e[q]) * np.cosh(ref) - 1
            amp = np.abs(ref) + (np.abs(O.ld(N[q])) + O.ld(e[q]) * np.abs(np.sinh(ref))) / df
            mon.judge("value", np.abs(O.ld(H[q]) - ref), 64 * env.eps * amp, dict(N=N[q], e=e[q], H=H[q]), reg[q])
    g = jax.jit(jax.vmap(lambda N, e, t: adx.solve_kepler_hypb(N, e, tol=t)))
    for t in (1e-2, 1e-3, 1e-9, 1e-12) if env.x64 else (1e-2, 1e-3, 1e-5):
        lab, kind, N, e = inputs(rng, n, env.dtype)
        ok, H = mon.call("tolerance", g, N, e, np.full(n, t, env.dtype))
        if ok:
            judge(mon, env, "tolerance", N, e, t, np.asarray(H), np.array([f"tol{t}/{a}" for a in lab], object))
    for mi in (50, 90, 300):
        lab, kind, N, e = inputs(rng, 500, env.dtype)
        ok, H = mon.call("tolerance", jax.jit(jax.vmap(lambda N, e: adx.solve_kepler_hypb(N, e, 1e-6, mi))), N, e)
        if ok:
            judge(mon, env, "tolerance", N, e, 1e-6, np.asarray(H), np.array([f"max_iter{mi}"] * 500, object))
    lab, kind, N, e = inputs(rng, n, env.dtype)
    ok, out = mon.call("symmetry", jax.jit(lambda N, e: (f(N, e), f(-N, e))), N, e)
    if ok:
        H, Hm = (O.ld(np.asarray(x)) for x in out)
        df = O.ld(e) * np.cosh(H) - 1
        d = 2e-6 + 128 * env.eps * (np.abs(O.ld(N)) + np.abs(H) * df)
        mon.judge("symmetry", np.abs(H + Hm), np.minimum(d / df, np.cbrt(24 * d)), dict(N=N, e=e), "odd")
        mon.judge("symmetry", np.where(H * O.ld(N) < 0, np.abs(H), 0), np.minimum(d / df, np.cbrt(24 * d)), dict(N=N, e=e), "sign")
    for i in range(env.n(10, 100)):
        e1 = np.full(2001, float(gen.pick_e(rng, 1, T.HYP, True)[1][0]), env.dtype)
        Ns = np.sort(T.logu(rng, 2001, -2, 5, True)).astype(env.dtype)
        ok, H = mon.call("monotone", f, Ns, e1)
        if ok:
            H = O.ld(np.asarray(H))
            df = O.ld(e1) * np.cosh(H) - 1
            d = 2e-6 + 128 * env.eps * (np.abs(O.ld(Ns)) + np.abs(H) * df)
            mon.judge("monotone", np.maximum(H[:-1] - H[1:], 0), (d / df)[1:] * 2, dict(N=Ns[1:], e=e1[1:]), "monotone")
    for N0, e0 in ((0, 2), (1, 1.5), (3.0, 1.1), (-2, 3), (0.0, 1.01), (1000.0, 1.3), (50, 20)):
        ok, H = mon.call("scalars", adx.solve_kepler_hypb, N0, e0)
        if ok and mon.require("scalars", np.shape(H) == (), dict(N=N0, e=e0, shape=list(np.shape(H))), "scalar root"):
            judge(mon, env, "scalars", np.asarray([N0], env.dtype), np.asarray([e0], env.dtype), 1e-6, np.asarray(H)[None], "scalar")
