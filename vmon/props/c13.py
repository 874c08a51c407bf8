"""C13: the state transition matrix is the derivative of the two-body flow."""

import numpy as np

from .. import gen, oracle as O, table as T
from ..common import drive, drive_group, judge_table
from .c10 import batched

LD = np.longdouble
Jm = np.block([[np.zeros((3, 3)), np.eye(3)], [-np.eye(3), np.zeros((3, 3))]]).astype(LD)


def run(mon, env, adx):
    import jax

    rng = env.rng
    drive_group(mon, env, adx, ("stm",), "blocks", 2000, rounds=env.n(2, 30), rows=4, free=True)
    fn = T.TABLE["dxdx0"]
    f = jax.jit(jax.vmap(adx.twobody.dxdx0))
    n = 3000
    for rnd in range(env.n(3, 40)):
        o, tl, dt, r, v, q, sig = T.mk_arc(rng, n, env.dtype, kinds=("tiny", "frac", "orbit", "multi"))
        inp = T.cast(dict(r_vec=r, v_vec=v, r0_vec=o["r"], v0_vec=o["v"], deltat=dt, mu=o["mu"]), env.dtype)
        ok, out = mon.call("derivative-of-flow", f, *[inp[k] for k in fn.names])
        if not ok:
            continue
        reg = np.array([f"{a}/{b}/{u}" for a, b, u in zip(o["elab"], tl, o["ulab"])], object)
        M = np.asarray(out)
        if not mon.require("derivative-of-flow", M.shape == (n, 6, 6), dict(shape=list(M.shape)), "6x6"):
            continue
        # the true derivative of the flow at the end states, allowance from the closed form
        Phi, _, _, _ = O.stm_exact(o["r"], o["v"], dt, o["mu"])
        refs = fn.refs(inp)
        cond = T.conditioning(fn, inp, refs, rng)
        tol = [3000 * env.eps * (c + T.size_of("m", b)) for c, b in zip(cond, T.split_blocks(Phi))]
        sr = O.norm(O.ld(o["r"]))
        tt = np.sqrt(sr**3 / O.ld(o["mu"]))
        w = {k: x for k, x in inp.items()}
        okm = np.ones(n, bool)
        for b, (g, p, t) in enumerate(zip(T.split_blocks(O.ld(M)), T.split_blocks(Phi), tol)):
            good = np.isfinite(t.astype(float)) & (T.size_of("m", p) < 1e30) & (t < 0.1 * (T.size_of("m", p) + 1e-30))
            okm &= good
            mon.judge("derivative-of-flow", T.err_of("m", g, p)[good], t[good], {**{k: x[good] for k, x in w.items()}, "block": str(b)}, reg[good])
        if rnd == 0:
            # the same matrix by finite differences of the extended-precision flow (oracle cross-check)
            sub = slice(0, 200)
            fd = O.stm_fd(o["r"][sub], o["v"][sub], dt[sub], o["mu"][sub])
            for b, (g, p, t) in enumerate(zip(T.split_blocks(O.ld(M[sub])), T.split_blocks(fd), tol)):
                lim = t[sub] + 1e-9 * T.size_of("m", p) + 1e-9 * T.size_of("m", T.split_blocks(Phi)[b][sub])
                # steep events, where five-point differences are not that good, are left to the closed form
                good = okm[sub] & (T.err_of("m", p, T.split_blocks(Phi)[b][sub]) < 1e-9 * T.size_of("m", p))
                mon.judge("finite-difference", T.err_of("m", g, p)[good], lim[good], {**{k: x[sub][good] for k, x in w.items()}, "block": str(b)}, reg[sub][good])
        # symplectic in canonical scaling (momenta scaled by the natural time unit)
        S = np.zeros((n, 6, 6), LD)
        for i in range(3):
            S[:, i, i] = 1
            S[:, i + 3, i + 3] = tt
        Si = np.zeros_like(S)
        for i in range(3):
            Si[:, i, i] = 1
            Si[:, i + 3, i + 3] = 1 / tt
        # S Phi S^-1 is dimensionless: blocks scaled by 1/tt, tt
        D = np.matmul(np.matmul(S, O.ld(M)), Si)
        sc = [tol[0], tol[1] / tt, tol[2] * tt, tol[3]]
        e = np.max(sc, axis=0)
        mag = np.abs(D).max((1, 2))
        lim = 12 * e * mag + 12 * e * e
        d = np.abs(np.matmul(np.matmul(np.swapaxes(D, 1, 2), Jm), D) - Jm).max((1, 2))
        good = okm & np.isfinite(lim.astype(float)) & (lim < 0.3)
        mon.judge("symplectic", d[good], lim[good], {k: x[good] for k, x in w.items()}, reg[good])
        # zero flight time: identity
        z = np.zeros(n, env.dtype)
        ok, out = mon.call("identity", f, o["r"], o["v"], o["r"], o["v"], z, o["mu"])
        if ok:
            I = O.ld(np.asarray(out))
            d = np.abs(np.matmul(np.matmul(S, I), Si) - np.eye(6)).max((1, 2))
            mon.judge("identity", d, 512 * env.eps * (1 + sr * O.dot(O.ld(o["v"]), O.ld(o["v"])) / O.ld(o["mu"])), dict(r0=o["r"], v0=o["v"], mu=o["mu"]), o["elab"])
    # composition through an intermediate state
    for _ in range(env.n(1, 15)):
        o, tl, dt, r, v, q, sig = T.mk_arc(rng, n, env.dtype, regimes=T.ELL[:5] + ("hyperbolic",), kinds=("frac", "orbit"))
        r1, v1 = r.astype(env.dtype), v.astype(env.dtype)
        o2 = dict(o, r=r1, v=v1)
        l2, d2 = gen.times(rng, o2, env.dtype, kinds=("frac", "orbit"))
        r2, v2, _ = O.propagate(r1, v1, d2, o["mu"])
        r0b, v0b, _ = O.propagate(r1, v1, -O.ld(dt), o["mu"])
        ds = (O.ld(dt) + O.ld(d2))
        c = lambda x: x.astype(env.dtype)
        A = [c(x) for x in (r1, v1, r0b, v0b, dt, o["mu"])]
        B = [c(x) for x in (r2, v2, r1, v1, d2, o["mu"])]
        D = [c(x) for x in (r2, v2, r0b, v0b, ds, o["mu"])]
        res = []
        for X in (A, B, D):
            ok, out = mon.call("composition", f, *X)
            if ok:
                inp = dict(zip(fn.names, X))
                refs = fn.refs(inp)
                t = [3000 * env.eps * (cc + T.size_of("m", b)) for cc, b in zip(T.conditioning(fn, inp, refs, rng), refs)]
                res.append((T.split_blocks(O.ld(np.asarray(out))), t))
        if len(res) < 3:
            continue
        (a, ta), (b, tb_), (d, td) = res
        sz = lambda x: T.size_of("m", x)
        for i in range(4):
            ro, co = divmod(i, 2)
            P = np.matmul(b[2 * ro], a[co]) + np.matmul(b[2 * ro + 1], a[2 + co])
            lim = td[i] + 3 * sum(tb_[2 * ro + k] * sz(a[2 * k + co]) + sz(b[2 * ro + k]) * ta[2 * k + co] for k in (0, 1))
            good = np.isfinite(lim.astype(float)) & (lim < 0.2 * (sz(d[i]) + sum(sz(b[2 * ro + k]) * sz(a[2 * k + co]) for k in (0, 1))))
            mon.judge("composition", T.err_of("m", P, d[i])[good], lim[good], dict(r0=A[2][good], v0=A[3][good], t1=dt[good], t2=d2[good], mu=o["mu"][good]), f"block{i}")
    # it is the Jacobian of the library's own propagator
    jac = jax.jit(jax.vmap(jax.jacfwd(lambda x, t, mu: jax.numpy.concatenate([y[0] for y in adx.prop.kepler(t, x[:3], x[3:], mu)]))))
    m = env.n(300, 4000)
    o, tl, dt, r, v, q, sig = T.mk_arc(rng, m, env.dtype, kinds=("frac", "orbit"), units=T.BIG)
    inp = T.cast(dict(r_vec=r, v_vec=v, r0_vec=o["r"], v0_vec=o["v"], deltat=dt, mu=o["mu"]), env.dtype)
    ok1, A = mon.call("jacobian-of-kepler", f, *[inp[k] for k in fn.names])
    ok2, B = mon.call("jacobian-of-kepler", jac, np.concatenate([o["r"], o["v"]], 1), dt, o["mu"])
    if ok1 and ok2:
        refs = fn.refs(inp)
        cond = T.conditioning(fn, inp, refs, rng)
        for i, (a, b, cc, p) in enumerate(zip(T.split_blocks(O.ld(np.asarray(A))), T.split_blocks(O.ld(np.asarray(B))), cond, refs)):
            t = 6000 * env.eps * (cc + T.size_of("m", p))
            good = np.isfinite(t.astype(float)) & (t < 0.1 * T.size_of("m", p))
            mon.judge("jacobian-of-kepler", T.err_of("m", a, b)[good], t[good], {k: x[good] for k, x in inp.items()}, f"block{i}")
