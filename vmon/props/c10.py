"""C10: the Kepler propagator returns the true two-body motion."""

import numpy as np

from .. import gen, oracle as O

C = 300.0
_cache = {}


def batched(adx):
    """kepler over a batch of orbits, one epoch each."""
    import jax

    if "b" not in _cache:
        _cache["b"] = jax.jit(jax.vmap(lambda t, r, v, mu: tuple(x[0] for x in adx.prop.kepler(t, r, v, mu))))
    return _cache["b"]


def rows(adx):
    """kepler with many epochs of one orbit in one call."""
    import jax

    if "r" not in _cache:
        _cache["r"] = jax.jit(adx.prop.kepler)
    return _cache["r"]


def judge_flow(mon, name, env, r0, v0, dt, mu, r, v, regime, C=C, inner=False):
    rv, vv, er, ev, _, q = O.flow_reference(r0, v0, dt, mu)
    if inner:
        # rounding of the terms of the universal Kepler equation, which cancel on inbound arcs
        MU, U = O.ld(mu), q["U"]
        k = 1 + np.sqrt(np.abs(q["alpha"])) * np.abs(q["chi"])
        d = k * (np.abs(q["r0"] * U[1]) + np.abs(q["sigma0"] * U[2]) + np.abs(U[3])) / np.sqrt(MU)
        er = er + O.norm(vv) * d + k * np.abs(U[2]) + k * (np.abs(q["r0"] * U[1]) + np.abs(q["sigma0"] * U[2])) / np.sqrt(MU) * O.norm(O.ld(v0))
        ev = ev + MU / O.norm(rv) ** 2 * d
    inp = dict(r0=r0, v0=v0, dt=dt, mu=mu, r=r, v=v)
    # where one ulp of the inputs already moves the state by more than 20% there is nothing to judge
    ok = (er * env.eps * C < 0.2 * O.norm(rv)) | (er * env.eps * C < 0.2 * O.norm(O.ld(r0)))
    ok &= np.isfinite(er.astype(float)) & np.isfinite(ev.astype(float))
    inp = {k: np.asarray(x)[ok] for k, x in inp.items()}
    reg = np.asarray(regime)[ok]
    mon.judge(name, O.norm(O.ld(r) - rv)[ok], (C * env.eps * er)[ok], inp, reg, trivial=np.asarray(dt)[ok] == 0)
    mon.judge(name, O.norm(O.ld(v) - vv)[ok], (C * env.eps * ev)[ok], inp, reg, trivial=np.asarray(dt)[ok] == 0)
    return ok


def run(mon, env, adx):
    rng = env.rng
    f = batched(adx)
    n = 4000
    for rnd in range(env.n(4, 60)):
        o = gen.orbits(rng, n, env.dtype)
        tl, dt = gen.times(rng, o, env.dtype, many=[100, 3000][rnd % 2] if env.x64 else 20)
        ok, out = mon.call("motion", f, dt, o["r"], o["v"], o["mu"])
        if not ok:
            continue
        r, v = (np.asarray(x) for x in out)
        reg = [f"{a}/{b}/{c}" for a, b, c in zip(o["elab"], tl, o["ulab"])]
        judge_flow(mon, "motion", env, o["r"], o["v"], dt, o["mu"], r, v, reg)
        # conserved quantities, judged at the returned state itself
        R0, V0, R, V, MU = (O.ld(x) for x in (o["r"], o["v"], r, v, o["mu"]))
        _, _, er, ev, _, q = O.flow_reference(o["r"], o["v"], dt, o["mu"])
        rr, vv_ = O.norm(R), O.norm(V)
        en0 = O.dot(V0, V0) / 2 - MU / O.norm(R0)
        en = O.dot(V, V) / 2 - MU / rr
        tol_en = C * env.eps * (vv_ * ev + MU / rr**2 * er + MU / O.norm(R0))
        h0, h = np.cross(R0, V0), np.cross(R, V)
        tol_h = C * env.eps * (rr * ev + vv_ * er + O.norm(h0))
        good = np.isfinite(tol_en.astype(float)) & (C * env.eps * er < 0.2 * rr)
        inp = {k: np.asarray(x)[good] for k, x in dict(r0=o["r"], v0=o["v"], dt=dt, mu=o["mu"], r=r, v=v).items()}
        mon.judge("integrals", np.abs(en - en0)[good], tol_en[good], inp, np.asarray(reg)[good])
        mon.judge("integrals", O.norm(h - h0)[good], tol_h[good], inp, np.asarray(reg)[good])
    # deep passages: from far out through, or close to, a periapsis many times nearer
    for rnd in range(env.n(2, 20)):
        ulab, L, mu = gen.pick_units(rng, n, not env.x64)
        lo = -3 if not env.x64 else -7
        x = 10.0 ** rng.uniform(lo, -0.5, n)
        e = np.where(rng.random(n) < 0.6, 1 - x, np.where(rng.random(n) < 0.9, 1 + x, 10.0 ** rng.uniform(0.01, 1, n)))
        rp = L * 10.0 ** rng.uniform(-0.3, 0.5, n)
        _, inc = gen.pick_incl(rng, n)
        r, v = O.coe2rv(rp * (1 + e), e, inc, gen.special_angles(rng, n), gen.special_angles(rng, n), np.zeros(n), mu)
        tp = np.sqrt(rp**3 / (mu * (1 + e)))  # time scale of the passage
        half = np.pi * np.sqrt((rp / np.maximum(1 - e, 1e-300)) ** 3 / mu)
        far = np.where(e < 1, half * rng.choice([1.0, 0.5, 0.1], n), tp * 10.0 ** rng.uniform(0, 3.5 if env.x64 else 1.5, n))
        s = rng.choice([-1.0, 1.0], n)
        r0, v0, _ = O.propagate(r, v, -s * far, mu)
        r0, v0, mu = r0.astype(env.dtype), v0.astype(env.dtype), mu.astype(env.dtype)
        dt = (s * (far + tp * rng.normal(size=n) * 2)).astype(env.dtype)
        ok, out = mon.call("deep", f, dt, r0, v0, mu)
        if ok:
            r, v = (np.asarray(x) for x in out)
            judge_flow(mon, "deep", env, r0, v0, dt, mu, r, v, C=C / 10, inner=True, regime=[f"{'ell' if a < 1 else 'hyp'}1e{int(np.floor(np.log10(abs(1 - a) + 1e-30)))}/{b}" for a, b in zip(e, ulab)])
    # many epochs of one orbit in one call: every row is the state at its own epoch
    g = rows(adx)
    for m, reps in ((1, 12), (2, 12), (3, 6), (4, 3), (5, 3), (6, 6), (7, 12), (8, 3), (9, 2), (int(rng.integers(10, 63)), 3), (64, 30), (257, 12), (1000, 12), (4097, 6)):
        for k in range(reps * env.n(1, 8)):
            o = gen.orbits(rng, 1, env.dtype)
            oo = {q: np.repeat(w, m, 0) for q, w in o.items()}
            tl, ts = gen.times(rng, oo, env.dtype, many=60 if env.x64 else 15)
            if k % 3 == 0:
                ts = np.sort(ts)
            ok, out = mon.call("motion-rows", g, ts, o["r"][0], o["v"][0], o["mu"][0])
            if not ok:
                continue
            r, v = (np.asarray(x) for x in out)
            if not mon.require("motion-rows", r.shape == (m, 3) and v.shape == (m, 3), dict(m=m, shape=list(r.shape)), "one row per epoch"):
                continue
            judge_flow(mon, "motion-rows", env, oo["r"], oo["v"], ts, oo["mu"], r, v, [f"n={m}/{x}" for x in o["elab"].repeat(m)])
    # special states in one jitted function; a few eagerly, the way a user calls it
    S = gen.special_states()
    T = (0.0, 1.0, -2.5, 10.0, 40.0, -300.0)
    for i, (r0, v0, mu, lab) in enumerate(S):
        r0 = np.asarray(r0, env.dtype)
        v0 = np.asarray(v0, env.dtype)
        ts = np.asarray(T, env.dtype)
        ok, out = mon.call("special", g, ts, r0, v0, env.dtype(mu))
        if ok:
            r, v = (np.asarray(x) for x in out)
            rep = lambda x: np.repeat(np.asarray(x)[None], len(T), 0)
            judge_flow(mon, "special", env, rep(r0), rep(v0), ts, np.full(len(T), mu, env.dtype), r, v, [lab] * len(T))
        if i % 4 == 0 or env.thorough:
            t = T[(i // 4) % len(T)]
            args = (t, r0, v0) if mu == 1.0 else (t, r0, v0, mu)
            ok, out = mon.call("special", adx.prop.kepler, *args)
            if ok:
                r, v = (np.asarray(x) for x in out)
                if mon.require("special", r.shape == (1, 3) and v.shape == (1, 3), dict(shape=list(r.shape)), "scalar epoch gives one row"):
                    judge_flow(mon, "special", env, r0[None], v0[None], np.asarray([t], env.dtype), np.asarray([mu], env.dtype), r, v, [lab + "/eager"])
