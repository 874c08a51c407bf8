"""C11: the Kepler propagator is a flow (composition, reversal, identity, period, epoch order)."""

import numpy as np

from .. import gen, oracle as O, table as T
from .c10 import batched, rows

LD = np.longdouble
C = 300.0


def run(mon, env, adx):
    import jax

    rng = env.rng
    f = batched(adx)
    g = rows(adx)
    n = 4000
    for rnd in range(env.n(3, 60)):
        o = gen.orbits(rng, n, env.dtype)
        l1, t1 = gen.times(rng, o, env.dtype, kinds=("tiny", "frac", "orbit", "multi"))
        l2, t2 = gen.times(rng, o, env.dtype, kinds=("tiny", "frac", "orbit", "multi"))
        reg = np.array([f"{a}/{b}/{c}" for a, b, c in zip(o["elab"], l1, l2)], object)
        R, V, MU = O.ld(o["r"]), O.ld(o["v"]), O.ld(o["mu"])

        def step(dt, r, v):
            ok, out = mon.call("flow", f, dt, r, v, o["mu"])
            return (np.asarray(out[0]), np.asarray(out[1])) if ok else None

        a = step(t1, o["r"], o["v"])
        if a is None:
            continue
        _, _, er1, ev1, Phi1, _ = O.flow_reference(o["r"], o["v"], t1, o["mu"])
        # second leg from the *returned* state
        b = step(t2, *a)
        ts = (O.ld(t1) + O.ld(t2)).astype(env.dtype)
        c = step(ts, o["r"], o["v"])
        back = step(-t1, *a)
        if b is None or c is None or back is None:
            continue
        dts = np.abs(O.ld(ts) - (O.ld(t1) + O.ld(t2)))
        r1, v1, er3, ev3, _, _ = O.flow_reference(o["r"], o["v"], ts, o["mu"])

        def amplified(rr, vv, dt):
            rf, vf, er2, ev2, Phi2, _ = O.flow_reference(rr, vv, dt, o["mu"])
            A = np.abs(Phi2)
            d1 = np.concatenate([np.repeat(er1[:, None], 3, 1), np.repeat(ev1[:, None], 3, 1)], 1)
            g = np.einsum("nij,nj->ni", A, d1)
            return er2 + g[:, :3].max(1), ev2 + g[:, 3:].max(1)

        er, ev = amplified(a[0], a[1], t2)
        vm, am = O.norm(O.ld(c[1])), MU / O.norm(O.ld(c[0])) ** 2
        tr = C * env.eps * (er + er3) + dts * vm * 2
        tv = C * env.eps * (ev + ev3) + dts * am * 2
        w = dict(r0=o["r"], v0=o["v"], mu=o["mu"], t1=t1, t2=t2)
        ok = np.isfinite((tr + tv).astype(float)) & (tr < 0.3 * O.norm(R)) & (tv < 0.3 * O.norm(V))
        s = {k: q[ok] for k, q in w.items()}
        mon.judge("composition", O.norm(O.ld(b[0]) - O.ld(c[0]))[ok], tr[ok], s, reg[ok])
        mon.judge("composition", O.norm(O.ld(b[1]) - O.ld(c[1]))[ok], tv[ok], s, reg[ok])
        er, ev = amplified(a[0], a[1], -t1)
        tr, tv = C * env.eps * er, C * env.eps * ev
        ok = np.isfinite((tr + tv).astype(float)) & (tr < 0.3 * O.norm(R)) & (tv < 0.3 * O.norm(V))
        s = {k: q[ok] for k, q in w.items()}
        mon.judge("reversal", O.norm(O.ld(back[0]) - R)[ok], tr[ok], s, reg[ok])
        mon.judge("reversal", O.norm(O.ld(back[1]) - V)[ok], tv[ok], s, reg[ok])
        # mirror: reversing the velocity reverses the motion
        m = step(-t1, o["r"], -o["v"])
        if m is not None:
            okm = np.isfinite((er1 + ev1).astype(float)) & (C * env.eps * er1 < 0.3 * O.norm(R))
            s = {k: q[okm] for k, q in w.items()}
            mon.judge("reversal", O.norm(O.ld(m[0]) - O.ld(a[0]))[okm], (C * env.eps * er1)[okm], s, reg[okm])
            mon.judge("reversal", O.norm(O.ld(m[1]) + O.ld(a[1]))[okm], (C * env.eps * ev1)[okm], s, reg[okm])
        # identity
        z = step(np.zeros(n, env.dtype), o["r"], o["v"])
        if z is not None:
            mon.judge("identity", O.norm(O.ld(z[0]) - R), 16 * env.eps * O.norm(R), dict(r0=o["r"], v0=o["v"], mu=o["mu"]), o["elab"])
            mon.judge("identity", O.norm(O.ld(z[1]) - V), 16 * env.eps * O.norm(V), dict(r0=o["r"], v0=o["v"], mu=o["mu"]), o["elab"])
        # period, as the library itself reports it
        q = np.nonzero(o["e"] < 0.95)[0]
        r, v, mu = o["r"][q], o["v"][q], o["mu"][q]
        k = rng.choice([-3, -1, 1, 2, 5], len(q)).astype(env.dtype)
        import jax.numpy as jnp

        per = jax.jit(lambda r, v, mu: adx.orb_period(adx.semimajor_axis(jnp.linalg.norm(r, axis=1), jnp.linalg.norm(v, axis=1), mu), mu))
        ok, P = mon.call("period", per, r, v, mu)
        if ok:
            dt = (np.asarray(P) * k).astype(env.dtype)
            ok, out = mon.call("period", f, dt, r, v, mu)
            if ok:
                _, _, er, ev, _, _ = O.flow_reference(r, v, dt, mu)
                a_ = 1 / O.alpha_of(O.ld(r), O.ld(v), O.ld(mu))
                dT = env.eps * 64 * np.abs(O.ld(dt)) * (1 + a_ * (2 / O.norm(O.ld(r)) + O.dot(O.ld(v), O.ld(v)) / O.ld(mu)))
                mon.judge("period", O.norm(O.ld(np.asarray(out[0])) - O.ld(r)), C * env.eps * er + dT * O.norm(O.ld(v)), dict(r0=r, v0=v, mu=mu, k=k), o["elab"][q])
                mon.judge("period", O.norm(O.ld(np.asarray(out[1])) - O.ld(v)), C * env.eps * ev + dT * O.ld(mu) / O.norm(O.ld(r)) ** 2, dict(r0=r, v0=v, mu=mu, k=k), o["elab"][q])
    # rows belong to their epochs: order, repetition and company do not matter
    m = 257
    for k in range(env.n(40, 400)):
        o = gen.orbits(rng, 1, env.dtype)
        oo = {q: np.repeat(w, m, 0) for q, w in o.items()}
        tl, ts = gen.times(rng, oo, env.dtype, many=40)
        ts[::31] = ts[0]
        perm = rng.permutation(m)
        # other epochs in the company of the first half
        ts2 = ts.copy()
        ts2[m // 2 :] = gen.times(rng, oo, env.dtype, many=40)[1][m // 2 :]
        if k % 2:
            ts2[m // 2 :: 3] = np.nan
        outs = []
        for tt in (ts, ts[perm], ts2):
            ok, out = mon.call("rows", g, tt, o["r"][0], o["v"][0], o["mu"][0])
            if ok:
                outs.append([np.asarray(x) for x in out])
        if len(outs) < 3:
            continue
        _, _, er, ev, _, _ = O.flow_reference(oo["r"], oo["v"], ts, oo["mu"])
        for j, e in ((0, er), (1, ev)):
            x, y, z = (O.ld(q[j]) for q in outs)
            okr = np.isfinite(e.astype(float))
            d = O.norm(x[perm] - y)
            mon.judge("rows", d[okr[perm]], (C * env.eps * e[perm])[okr[perm]], dict(ts=ts[perm][okr[perm]], r0=oo["r"][okr[perm]], v0=oo["v"][okr[perm]]), "permuted")
            h = np.arange(m) < m // 2
            h &= okr
            mon.judge("rows", O.norm(x - z)[h], (C * env.eps * e)[h], dict(ts=ts[h], r0=oo["r"][h], v0=oo["v"][h]), "company")
            dup = np.arange(0, m, 31)
            if okr[0]:
                mon.judge("rows", O.norm(x[dup] - x[0]), C * env.eps * e[dup], dict(ts=ts[dup], r0=oo["r"][dup], v0=oo["v"][dup]), "repeated")
