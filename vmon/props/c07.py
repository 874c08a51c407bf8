"""C07: universal Kepler solver returns the root for every conic and flight time."""

import numpy as np

from .. import gen, oracle as O, table as T

LD = np.longdouble


def inputs(rng, n, dtype, units=None, many=100):
    o = gen.orbits(rng, n, dtype, units=units)
    tl, dt = gen.times(rng, o, dtype, many=many)
    R, V, MU = O.ld(o["r"]), O.ld(o["v"]), O.ld(o["mu"])
    al = O.alpha_of(R, V, MU)
    z = rng.random(n) < 0.03  # exact parabola
    al = np.where(z, 0, al)
    s0 = O.dot(R, V) / np.sqrt(MU)
    z2 = rng.random(n) < 0.03
    s0 = np.where(z2, 0, s0)
    c = lambda x: np.asarray(x).astype(dtype)
    lab = np.array([f"{a}/{b}/{u}" for a, b, u in zip(np.where(z, "parabola", o["elab"]), tl, o["ulab"])], object)
    return lab, dict(deltat=dt, alpha=c(al), r0=c(O.norm(R)), sigma0=c(s0), mu=o["mu"])


def terms(a, X):
    al, r0, s0, mu, dt = (O.ld(a[k]) for k in ("alpha", "r0", "sigma0", "mu", "deltat"))
    with np.errstate(all="ignore"):
        u = O.Uall(X, al, 3)
        ua = O.Uall(X, al * (1 + LD(1e-8)), 3)
        f = r0 * u[1] + s0 * u[2] + u[3] - np.sqrt(mu) * dt
        df = r0 * u[0] + s0 * u[1] + u[2]
        big = np.abs(r0 * u[1]) + np.abs(s0 * u[2]) + np.abs(u[3]) + np.abs(np.sqrt(mu) * dt)
        da = sum(np.abs(k * (y - x)) / LD(1e-8) for k, x, y in zip((r0, s0, LD(1)), u[1:], ua[1:]))
        dx = np.abs(X) * (np.abs(r0 * u[0]) + np.abs(s0 * u[1]) + np.abs(u[2]))
    return f, df, big + da + dx


def judge(mon, env, name, a, tol, got, lab, C=300):
    X = O.ld(got)
    f, df, sc = terms(a, X)
    chi = O.kepler_chi(a["deltat"], a["alpha"], a["r0"], a["sigma0"], a["mu"])
    _, _, sc0 = terms(a, chi)
    ok = np.isfinite(sc0.astype(float)) & (sc0 < 1e-4 * float(np.finfo(env.dtype).max))
    # an independent-input pair (sigma0, alpha) must describe a conic: r(chi) > 0 at the root
    with np.errstate(all="ignore"):
        ok &= terms(a, chi)[1] > 0
    w = {k: v[ok] for k, v in a.items()}
    w.update(chi=got[ok], ref=chi[ok].astype(float), tol=np.full(ok.sum(), float(tol)))
    return mon.judge(name, np.abs(f)[ok], (np.asarray(tol, LD) + C * env.eps * sc0)[ok], w, lab[ok], trivial=w["deltat"] == 0), chi, ok


def run(mon, env, adx):
    import jax

    rng = env.rng
    K = ("deltat", "alpha", "r0", "sigma0", "mu")
    f = jax.jit(jax.vmap(adx.solve_kepler_uni))
    n = 4000
    for rnd in range(env.n(5, 80)):
        lab, a = inputs(rng, n, env.dtype, units=T.BIG if rnd % 2 else None, many=1000 if env.x64 else 30)
        ok, X = mon.call("root", f, *[a[k] for k in K])
        if ok:
            X = np.asarray(X)
            _, chi, q = judge(mon, env, "root", a, 1e-6, X, lab)
            # the default tolerance delivers the floating-point root when it is small against the orbit
            _, df, sc = terms(a, chi)
            with np.errstate(all="ignore"):
                q &= (O.ld(a["r0"]) > 0.9) & (1e-6 < 1e-4 * np.abs(df) * np.sqrt(O.ld(a["r0"]))) & (sc * env.eps * 300 < 1e-3 * np.abs(df * chi) + 1e-30)
            if q.any():
                w = {k: v[q] for k, v in a.items()}
                w["chi"] = X[q]
                # two refinement steps after the loop: quadratic from 1e-4 relative at worst
                mon.judge("value", np.abs(O.ld(X) - chi)[q], (300 * env.eps * (sc / np.abs(df) + np.abs(chi)) + 1e-13 * np.sqrt(O.ld(a["r0"])) * (1e-6 / np.abs(df) / np.sqrt(O.ld(a["r0"])) / 1e-4) ** 2)[q], w, lab[q])
    g = jax.jit(jax.vmap(lambda dt, al, r0, s0, mu, t: adx.solve_kepler_uni(dt, al, r0, s0, mu, tol=t)))
    for t in (1e-2, 1e-4, 1e-10, 1e-12) if env.x64 else (1e-2, 1e-4):
        lab, a = inputs(rng, n, env.dtype, units=T.BIG)
        ok, X = mon.call("tolerance", g, *[a[k] for k in K], np.full(n, t, env.dtype))
        if ok:
            judge(mon, env, "tolerance", a, t, np.asarray(X), lab)
    for mi in (50, 90, 300):
        lab, a = inputs(rng, 500, env.dtype, units=T.BIG)
        ok, X = mon.call("tolerance", jax.jit(jax.vmap(lambda *b: adx.solve_kepler_uni(*b, 1e-6, mi))), *[a[k] for k in K])
        if ok:
            judge(mon, env, "tolerance", a, 1e-6, np.asarray(X), lab)
    # time reversal: chi(-dt; sigma0) = -chi(dt; -sigma0); default mu is one
    lab, a = inputs(rng, n, env.dtype, units=("canonical",))
    a["mu"] = np.ones(n, env.dtype)
    ok, out = mon.call("symmetry", jax.jit(jax.vmap(lambda dt, al, r0, s0: (adx.solve_kepler_uni(dt, al, r0, s0), adx.solve_kepler_uni(-dt, al, r0, -s0)))), *[a[k] for k in K[:4]])
    if ok:
        X, Y = (np.asarray(x) for x in out)
        _, chi, q = judge(mon, env, "symmetry", a, 1e-6, X, lab)
        b = dict(a, deltat=-a["deltat"], sigma0=-a["sigma0"])
        judge(mon, env, "symmetry", b, 1e-6, Y, lab)
    for args in ((0, 1, 1, 0), (1, 0.5, 2, 0), (1.0, 0.0, 2.0, 0.5), (-3, -0.5, 1, 1), (10.0, 0.25, 4.0, 0.0, 2.0), (0.5, -1.0, 1.0, -0.5, 4)):
        ok, X = mon.call("scalars", adx.solve_kepler_uni, *args)
        if ok and mon.require("scalars", np.shape(X) == (), dict(args=list(args), shape=list(np.shape(X))), "scalar root"):
            a = dict(zip(K, [np.asarray([float(v)], env.dtype) for v in (list(args) + [1.0])[:5]]))
            judge(mon, env, "scalars", a, 1e-6, np.asarray(X)[None], np.array(["scalar"], object))
