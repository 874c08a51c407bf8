"""C15: elements and states are faithful descriptions of each other."""

import numpy as np

from .. import gen, oracle as O, table as T
from ..common import drive

LD = np.longdouble
EL = ("p", "e", "incl", "raan", "argp", "true_anom", "mu")


def sens(el, mu, dirs):
    """Change of the state per unit error of each element (finite, longdouble)."""
    base = O.coe2rv(*el, mu)
    out = []
    for j, d in enumerate(dirs):
        a = list(el)
        h = LD(1e-9)
        a[j] = a[j] + h * d
        x = O.coe2rv(*a, mu)
        out.append((O.norm(x[0] - base[0]) / h, O.norm(x[1] - base[1]) / h))
    return out


def run(mon, env, adx):
    import jax
    import jax.numpy as jnp

    rng = env.rng
    fn = T.TABLE["coe2rv"]
    n = 4000
    for _ in range(env.n(3, 40)):
        drive(mon, env, adx, fn, n, "from-elements")
    drive(mon, env, adx, fn, 64, "from-elements", "eager")
    drive(mon, env, adx, fn, 24, "from-elements", "grid")
    drive(mon, env, adx, fn, 12, "from-elements", "rows")
    there = jax.jit(lambda r, v, mu: (lambda el: (el, adx.coe2rv(*el, mu)))(adx.rv2coe(r, v, mu[:, None])))
    for _ in range(env.n(4, 60)):
        o = gen.orbits(rng, n, env.dtype)
        ok, out = mon.call("state-round-trip", there, o["r"], o["v"], o["mu"])
        if ok:
            el, (r, v) = out
            R, V, MU = O.ld(o["r"]), O.ld(o["v"]), O.ld(o["mu"])
            h = np.cross(R, V)
            rm, vm, hm = O.norm(R), O.norm(V), O.norm(h)
            ang = rm * vm / hm
            sc = 1 + rm * vm**2 / MU
            E = [O.ld(np.asarray(x)) for x in el]
            eps = env.eps
            C = 256
            si = np.hypot(h[:, 0], h[:, 1]) / hm
            ti = C * eps * ang
            # each element is known to this accuracy; elements enter in well-determined combinations
            em = O.norm(O.ecc_vec(R, V, MU))
            di = np.minimum(ti / np.maximum(si, 1e-30), np.sqrt(8 * ti)) + ti
            with np.errstate(all="ignore"):
                q = 1 + em * np.cos(E[5])
            p = E[0]
            # motion of the state for: p, e, plane tilt, along-track turn; all in units of eps
            tr = rm * (di + 3 * C * eps * ang * sc + C * eps * ang * (1 + sc / q))
            tv = (vm + np.sqrt(MU / p) * (1 + em)) * (di + 3 * C * eps * ang * sc + C * eps * ang) + np.sqrt(MU / p) * C * eps * sc * ang
            # the node of a nearly equatorial plane is poorly determined, but only together with argp
            lim = np.isfinite((tr + tv).astype(float)) & (tr < 0.2 * rm)
            w = dict(r=o["r"], v=o["v"], mu=o["mu"], back=np.asarray(r))
            reg = np.array([f"{a}/{b}/{c}" for a, b, c in zip(o["elab"], o["ilab"], o["ulab"])], object)
            s = {k: x[lim] for k, x in w.items()}
            mon.judge("state-round-trip", O.norm(O.ld(np.asarray(r)) - R)[lim], tr[lim], s, reg[lim])
            mon.judge("state-round-trip", O.norm(O.ld(np.asarray(v)) - V)[lim], tv[lim], s, reg[lim])
    back = jax.jit(lambda *a: (lambda rv: adx.rv2coe(rv[0], rv[1], a[6][:, None]))(adx.coe2rv(*a)))
    for _ in range(env.n(3, 40)):
        _, e = gen.pick_e(rng, n, T.SAFE_E, not env.x64)
        L, mu = T.mk_scales(rng, n, env.dtype)
        fm = np.where(e >= 1, np.arccos(-1 / np.maximum(e, 1)) * 0.95, np.pi)
        inp = T.cast(dict(p=L * (1 + e), e=e, incl=rng.uniform(0.01, np.pi - 0.01, n), raan=rng.uniform(0, 2 * np.pi, n), argp=rng.uniform(0, 2 * np.pi, n),
                          true_anom=np.where(e < 1, rng.uniform(0, 2 * np.pi, n), rng.uniform(-1, 1, n) * fm), mu=mu), env.dtype)
        ok, out = mon.call("elements-round-trip", back, *[inp[k] for k in EL])
        if ok:
            X = {k: O.ld(x) for k, x in inp.items()}
            R, V = O.coe2rv(*[X[k] for k in EL])
            h = np.cross(R, V)
            ang = O.norm(R) * O.norm(V) / O.norm(h)
            sc = 1 + O.norm(R) * O.norm(V) ** 2 / X["mu"]
            qd = 1 / np.abs(1 + X["e"] * np.cos(X["true_anom"]))
            tol = 256 * env.eps * ang * sc * (1 + qd) * 3
            got = [O.ld(np.asarray(x)) for x in out]
            si = np.sin(X["incl"])
            w = {k: x for k, x in inp.items()}
            for j, (k, t, angle) in enumerate((("p", tol * X["p"], 0), ("e", tol, 0), ("incl", tol / si, 0), ("raan", tol / si, 1), ("argp", tol / X["e"] + tol / si, 1), ("true_anom", tol / X["e"], 1))):
                d = got[j] - X[k]
                if angle:
                    d = d - 2 * O.PI * np.rint(d / (2 * O.PI))
                m = t < 0.3 * (X[k] if k == "p" else 1)
                mon.judge("elements-round-trip", np.abs(d)[m], t[m], {q: x[m] for q, x in w.items()}, k)
    # any mixture of scalars and arrays that broadcasts describes the broadcast orbits
    m = 6
    base = fn.make(rng, m, env.dtype)
    for k in range(env.n(48, 254)):
        bits = [bool((k * 37 + 11) >> j & 1) if k >= 14 else (j == k % 7) == (k < 7) for j in range(7)]
        if bits[6] and not any(bits[:6]):
            continue  # mu alone as an array: not covered (one position cannot follow several mu)
        if k % 4 == 3:
            base = fn.make(rng, m, env.dtype)
        full = {a: (base[a] if b else np.repeat(base[a][:1], m)) for a, b in zip(EL, bits)}
        if full["e"].max() > 0.99:
            full["true_anom"] = np.clip(full["true_anom"], -0.5, 0.5).astype(env.dtype)
        args = [full[a] if b else (float(full[a][0]) if k % 2 else jnp.asarray(full[a][0])) for a, b in zip(EL, bits)]
        ok, out = mon.call("broadcast", adx.coe2rv, *args, witness=dict(arrays=[a for a, b in zip(EL, bits) if b], **full))
        if not ok:
            continue
        r, v = (np.asarray(x) for x in out)
        need = any(bits)
        wr, wv = O.coe2rv(*[O.ld(full[a]) for a in EL])
        if not need:
            wr, wv = wr[0], wv[0]
        # position does not depend on mu, velocity may keep the broadcast batch only where it varies
        try:
            gr, gv = np.broadcast_to(r, wr.shape), np.broadcast_to(v, wv.shape)
        except ValueError:
            mon.require("broadcast", False, dict(arrays=[a for a, b in zip(EL, bits) if b], shape=[list(r.shape), list(v.shape)]), "result broadcasts to the batch")
            continue
        q = 1 / np.abs(1 + O.ld(full["e"]) * np.cos(O.ld(full["true_anom"])))
        lim = 256 * env.eps * (1 + (1 + O.ld(full["e"])) * q * 8)
        nr, nv = np.atleast_1d(O.norm(wr)), np.atleast_1d(O.norm(wv))
        full_b = {a: np.asarray(x)[: len(nr)] for a, x in full.items()}
        mon.judge("broadcast", np.atleast_1d(O.norm(O.ld(gr) - wr)), lim[: len(nr)] * nr, full_b, "".join("x" if b else "." for b in bits))
        mon.judge("broadcast", np.atleast_1d(O.norm(O.ld(gv) - wv)), 256 * env.eps * (nv + np.sqrt(O.ld(full["mu"]) / O.ld(full["p"]))[: len(nr)] * (1 + O.ld(full["e"])[: len(nr)])), full_b, "".join("x" if b else "." for b in bits))
