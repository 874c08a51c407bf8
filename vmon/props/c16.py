"""C16: path checks agree with the geometry of the transfer."""

import numpy as np

from .. import gen, oracle as O, table as T
from ..common import allowance, drive_group, judge_table, jitted

LD = np.longdouble


def run(mon, env, adx):
    import jax

    rng = env.rng
    drive_group(mon, env, adx, ("path",), "decision", 4000, rounds=env.n(6, 80), rows=24)
    tb = adx.twobody
    n = 4000
    sh = jax.jit(jax.vmap(tb.is_short_way))
    pp = jax.jit(jax.vmap(tb.pass_perigee))
    rp = jax.jit(jax.vmap(tb.rp_islower_rmin))
    for _ in range(env.n(3, 40)):
        # end point = true later position on the same orbit, flight time shorter than one revolution
        o = gen.orbits(rng, n, np.float64, e_regimes=T.SAFE_E)
        R, V, MU = O.ld(o["r"]), O.ld(o["v"]), O.ld(o["mu"])
        ell = o["e"] < 1
        dt = np.where(ell, o["period"] * rng.uniform(0.01, 0.99, n), o["tscale"] * 10.0 ** rng.uniform(-1, 1.3, n))
        r2, v2, q = O.propagate(R, V, dt, MU)
        c = lambda x: np.asarray(x).astype(env.dtype)
        h = np.cross(R, V)
        ev = O.ecc_vec(R, V, MU)
        th = T.ang_signed(R, r2, h)
        m1 = 2000 * env.eps
        clear = (np.abs(th - O.PI) > m1) & (th > m1) & (th < 2 * O.PI - m1)
        reg = np.array([f"{a}/{b}" for a, b in zip(o["elab"], o["ilab"])], object)
        w = dict(r1=c(R), v1=c(V), r2=c(r2), mu=c(MU), tof=dt)
        ok, got = mon.call("flown-arc", sh, c(R), c(V), c(r2))
        if ok:
            bad = np.asarray(got) != (th < O.PI)
            mon.judge("flown-arc", bad[clear].astype(float), 0.5, {k: x[clear] for k, x in w.items()}, reg[clear])
        # periapsis is flown through when the time to the next periapsis is shorter than the flight
        em = O.norm(ev)
        s0 = O.dot(R, V) / np.sqrt(MU)
        al = O.alpha_of(R, V, MU)
        with np.errstate(all="ignore"):
            a = 1 / al
            A = np.abs(a)
            E0 = np.arctan2(s0 / np.sqrt(A), 1 - O.norm(R) / a)
            Mel = np.where(ell, E0 - s0 / np.sqrt(A), 0)
            H0 = np.arcsinh(s0 / np.sqrt(A) / em)
            tp = np.where(ell, np.mod(-Mel, 2 * O.PI), -(s0 / np.sqrt(A) - H0)) * np.sqrt(A**3 / MU)
        per = 2 * O.PI * np.sqrt(A**3 / MU)
        passed = (tp > 0) & (tp < dt)
        f1, f2 = T.ang_unsigned(ev, R), T.ang_unsigned(ev, r2)
        mm = m1 / em
        clear2 = clear & (f1 > mm) & (f2 > mm) & np.isfinite(tp.astype(float))
        ok, got = mon.call("flown-arc", pp, c(R), c(V), c(r2), c(MU))
        if ok:
            bad = np.asarray(got) != passed
            mon.judge("flown-arc", bad[clear2].astype(float), 0.5, {k: x[clear2] for k, x in w.items()}, reg[clear2])
        # periapsis radius against the closest point of the whole orbit
        rper = O.dot(h, h) / MU / (1 + em)
        fac = 1 + rng.choice([-1, 1], n) * 10.0 ** rng.uniform(-4 if env.x64 else -3, 0, n)
        rmin = c(rper * np.maximum(fac, 0.001))
        sc = 1 + O.norm(R) * O.dot(V, V) / MU
        far = np.abs(O.ld(rmin) - rper) > 400 * env.eps * rper * (sc * (O.norm(R) * O.norm(V) / O.norm(h)))
        ok, got = mon.call("closest-point", rp, rmin, c(R), c(V), c(MU))
        if ok:
            bad = np.asarray(got) != (rper < O.ld(rmin))
            mon.judge("closest-point", bad[far].astype(float), 0.5, dict(rmin=rmin[far], r=c(R)[far], v=c(V)[far], mu=c(MU)[far]), reg[far])
        # forward then backward: the reversed motion goes the other way about the same way round
        ok1, g1 = mon.call("reversal", sh, c(R), c(V), c(r2))
        ok2, g2 = mon.call("reversal", sh, c(R), c(-V), c(r2))
        if ok1 and ok2:
            mon.judge("reversal", (np.asarray(g1) == np.asarray(g2))[clear].astype(float), 0.5, {k: x[clear] for k, x in w.items()}, reg[clear])
    # revolutions: N revolutions fit exactly when N periods of the smallest admissible orbit do
    nm = jax.jit(tb.nmax_by_periapsis)
    for _ in range(env.n(3, 40)):
        L, mu = T.mk_scales(rng, n, env.dtype)
        wide = rng.random(n) < 0.5
        r1 = c(L * 10.0 ** (rng.uniform(0, 0.5, n) * np.where(wide, 8, 1)))
        r2 = c(L * 10.0 ** (rng.uniform(0, 0.5, n) * np.where(wide, 8, 1)))
        rpm = c(L * np.where(wide, T.logu(rng, n, -4, 0), rng.uniform(0.05, 1.0, n)))
        mu = c(mu)
        am = (np.maximum(O.ld(r1), O.ld(r2)) + O.ld(rpm)) / 2
        P = 2 * O.PI * np.sqrt(am**3 / O.ld(mu))
        N = np.where(wide, rng.integers(0, 2000, n), rng.integers(0, 40, n))
        tof = c(P * (N + rng.choice([0.5, 0.01, 0.99, 0.9], n)))
        ok, got = mon.call("revolutions", nm, rpm, r1, r2, tof, mu)
        if ok:
            mon.judge("revolutions", np.abs(np.asarray(got).astype(LD) - np.floor(O.ld(tof) / P)), 0.5, dict(rp_min=rpm, r1=r1, r2=r2, tof=tof, mu=mu), np.array([str(k) for k in N], object))
    for args, want in (((), 0), ((0.5,), 0), ((0.5, 1.0, 1.0, 50.0), 12), ((0.5, 1.0, 1.0, 50.0, 4.0), 24), ((0.5, 1, 2, 50.0), 5), ((0.5, 2, 1, 50.0), 5)):
        am = [0.97, 1.0, 1.0, np.pi, 1.0]
        for i, x in enumerate(args):
            am[i] = float(x)
        ref = np.floor(am[3] / (2 * np.pi) * np.sqrt(am[4] / (0.5 * (max(am[1], am[2]) + am[0])) ** 3))
        ok, got = mon.call("revolutions", tb.nmax_by_periapsis, *args)
        if ok:
            mon.require("revolutions", np.shape(got) == () and float(got) == ref, dict(args=list(args), got=float(np.asarray(got).reshape(-1)[0]), want=float(ref)), "documented defaults")
