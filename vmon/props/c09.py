"""C09: universal functions."""

import numpy as np

from .. import gen, oracle as O, table as T
from ..common import drive, drive_group, judge_table

LD = np.longdouble


def run(mon, env, adx):
    import jax
    import jax.numpy as jnp
    from math import factorial

    rng = env.rng
    tb = adx.twobody
    drive_group(mon, env, adx, ("ufunc",), "value", 4000, rounds=env.n(4, 60), eager=False, rows=8, free=True)
    drive(mon, env, adx, T.TABLE["sigma_fn"], 64, "value", "eager")
    drive(mon, env, adx, T.TABLE["sigma_fn"], 24, "value", "grid")
    U = [getattr(tb, f"ufunc{k}") for k in range(6)]
    n = 4000
    allU = jax.jit(jax.vmap(lambda c, a: tuple(u(c, a) for u in U)))
    dU = jax.jit(jax.vmap(lambda c, a: tuple(jax.jvp(lambda x: u(x, a), (c,), (jnp.ones_like(c),))[1] for u in U)))
    for _ in range(env.n(2, 30)):
        inp = T.mk_chi(rng, n, env.dtype)
        chi, al = inp["chi"], inp["alpha"]
        X, A = O.ld(chi), O.ld(al)
        ok, out = mon.call("identities", allU, chi, al)
        ok2, der = mon.call("derivative", dU, chi, al)
        ok3, neg = mon.call("identities", allU, -chi, al)
        if not (ok and ok2 and ok3):
            continue
        u = [O.ld(np.asarray(x)) for x in out]
        d = [O.ld(np.asarray(x)) for x in der]
        m = [O.ld(np.asarray(x)) for x in neg]
        ref = O.Uall(X, A, 6)
        psi = np.abs(A * X * X)
        amp = 1 + np.sqrt(psi)  # one ulp of chi or alpha moves the argument by this much
        reg = np.array([f"psi1e{k}/{'+' if s >= 0 else '-'}" for k, s in zip(np.floor(np.log10(np.maximum(psi.astype(float), 1e-30))).astype(int), al)], object)
        w = dict(chi=chi, alpha=al)
        size = [np.abs(X) ** k * np.abs(O.stumpff(k, np.where(A > 0, 0, A * X * X))) for k in range(6)]
        for k in range(4):
            lhs = u[k] + A * u[k + 2]
            sc = np.abs(X) ** k / factorial(k) + np.abs(u[k]) + np.abs(A * u[k + 2])
            mon.judge("identities", np.abs(lhs - X**k / factorial(k)), 200 * env.eps * amp * (sc + size[k]), w, reg)
        for k in range(6):
            mon.judge("identities", np.abs(m[k] - (-1) ** k * u[k]), 8 * env.eps * np.abs(u[k]), w, reg)
        # dU_{k+1}/dchi = U_k,  dU_0/dchi = -alpha U_1
        for k in range(1, 6):
            mon.judge("derivative", np.abs(d[k] - ref[k - 1]), 300 * env.eps * amp * size[k - 1] * (1 + psi * 0), w, reg)
        mon.judge("derivative", np.abs(d[0] + A * ref[1]), 300 * env.eps * amp * np.abs(A) * size[1], w, reg)
    # one conic, many chi in one call (the documented array form), including chi = 0 and alpha = 0
    for i in range(env.n(24, 200)):
        inp = T.mk_chi(rng, 33, env.dtype)
        a = env.dtype(0.0 if i % 6 == 0 else inp["alpha"][i % 33])
        x = (inp["chi"] / np.abs(inp["chi"]).max() * (1 if a == 0 else min(20.0, 1e6) / np.sqrt(abs(float(a))))).astype(env.dtype)
        x[5] = 0
        k = i % 6
        fn = T.TABLE[f"ufunc{k}"]
        aa = float(a) if i % 2 else jnp.asarray(a)
        ok, out = mon.call("array-chi", U[k], jnp.asarray(x), aa, witness=dict(k=k, alpha=float(a)))
        if ok and mon.require("array-chi", np.shape(out) == (33,), dict(k=k, shape=list(np.shape(out))), "one value per chi"):
            judge_table(mon, env, "array-chi", fn, dict(chi=x, alpha=np.full(33, a)), [np.asarray(out)], label=f"ufunc{k}/a{'+' if a > 0 else '-' if a < 0 else '0'}")
