"""C01: every gravity model is the gradient of its potential, for any state, units and arguments."""

import numpy as np

from .. import gen, oracle as O

LD = np.longdouble
MODELS = (("point_mass_grav", 0, None), ("j2_acc", 2, "J2"), ("j3_acc", 3, "J3"), ("j4_acc", 4, "J4"))
JVAL = {"J2": 1.08262668e-3, "J3": -2.53215306e-6, "J4": -1.61098761e-6}


def positions(rng, n, L, dtype):
    u = rng.normal(size=(n, 3))
    u /= np.linalg.norm(u, axis=1, keepdims=True)
    k = rng.integers(0, 10, n)
    u[k == 0] = np.eye(3)[rng.integers(0, 3, (k == 0).sum())] * rng.choice([-1, 1], ((k == 0).sum(), 1))
    u[k == 1, 2] = 0  # equator
    s = rng.choice([0.44721359549995793, 0.7745966692414834, 0.33998104358485626, 0.8611363115940526], n)
    z = k == 2  # latitudes where a component of a zonal term vanishes
    u[z, 2] = s[z] * rng.choice([-1, 1], z.sum())
    w = np.linalg.norm(u[:, :2], axis=1)
    w = np.where(w > 0, w, 1)
    u[z, :2] *= (np.sqrt(1 - s[z] ** 2) / w[z])[:, None]
    u[k == 3, 2] *= 10.0 ** rng.uniform(-8, -1, (k == 3).sum())  # near the equator
    u[k == 4, :2] *= 10.0 ** rng.uniform(-8, -1, ((k == 4).sum(), 1))  # near the poles
    nrm = np.linalg.norm(u, axis=1)
    u[nrm == 0] = [1, 0, 0]
    r = L * 10.0 ** rng.uniform(0, 1, n) * np.where(rng.random(n) < 0.1, 100, 1)
    return (u / np.linalg.norm(u, axis=1, keepdims=True) * r[:, None]).astype(dtype)


def batch(rng, n, dtype):
    lab, L, mu = gen.pick_units(rng, n)
    pos = positions(rng, n, L, dtype)
    R = L * 10.0 ** rng.uniform(-1, 0.3, n)
    sgn = rng.choice([-1.0, 1.0], (3, n))
    a = dict(mu=mu, R_eq=R)
    for i, k in enumerate(JVAL):
        a[k] = np.where(rng.random(n) < 0.3, JVAL[k], sgn[i] * 10.0 ** rng.uniform(-8, -2, n))
        a[k] = np.where(rng.random(n) < 0.05, 0.0, a[k])
    # small round numbers: coordinates that coincide or vanish, parameters equal to one
    q = rng.random(n) < 0.05
    x = rng.integers(-2, 3, (n, 3)) * 0.5
    q &= np.any(x != 0, axis=1)
    pos[q] = x[q].astype(dtype)
    for k in ("mu", "R_eq"):
        a[k] = np.where(q, rng.choice([0.5, 1.0, 2.0], n), a[k])
    lab = np.where(q, "round", lab)
    return lab, pos, {k: v.astype(dtype) for k, v in a.items()}


def known_mask(env, name, pos, a, got):
    """float32, j3/j4: r**7 or mu*J*R**n outside the float32 range; the result is 0 or NaN."""
    if env.x64 or name not in ("j3_acc", "j4_acc"):
        return {}
    n = int(name[1])
    r = O.norm(O.ld(pos))
    big = float(np.finfo(np.float32).max)
    num = 2.5 * np.abs(O.ld(a["mu"]) * O.ld(a[f"J{n}"])) * np.maximum(O.ld(a["R_eq"]) ** n, 1)
    out = (r**7 > 0.99 * big) | (num > 0.99 * big) | (O.ld(a["R_eq"]) ** n > 0.99 * big)
    dead = np.all((got == 0) | np.isnan(got), axis=-1)
    return {f"{name}-float32-r7": np.asarray(out & dead)}


def scale(n, pos, a):
    r = O.norm(O.ld(pos))
    c = O.ld(a["mu"]) / r**2
    if n:
        c = c * np.abs(O.ld(a[f"J{n}"])) * (O.ld(a["R_eq"]) / r) ** n * (n + 1) ** 2
    return c


def in_range(env, n, pos, a):
    """Events whose acceleration is comfortably inside the normal range of the precision."""
    s = scale(n, pos, a).astype(np.float64)
    r = np.linalg.norm(pos.astype(np.float64), axis=1)
    t = float(np.finfo(env.dtype).tiny)
    lo = (s / np.maximum(r, 1) ** 2 > 1e4 * t) | (s == 0)
    if n >= 3:  # so that mu J R**n is a normal number
        num = np.abs(a["mu"].astype(float) * a[f"J{n}"].astype(float)) * np.minimum(a["R_eq"].astype(float) ** n, 1)
        lo &= (num > 1e4 * t) | (s == 0)
    # the documented forms divide by powers of r: keep r**3 representable
    return lo & (s / np.minimum(r, 1) ** 2 < 1e33) & (r**3 > 1e4 * t) & (r**7 > 1e4 * t) & (r**3 < 1e35)


def run(mon, env, adx):
    import jax
    import jax.numpy as jnp

    rng = env.rng
    C = 64.0
    for name, n, jk in MODELS:
        f = getattr(adx.gravity, name)
        for rnd in range(env.n(3, 40)):
            m = 4000
            lab, pos, a = batch(rng, m, env.dtype)
            width = [3, 6, 7, 42][rnd % 4]
            x = np.concatenate([pos, (rng.normal(size=(m, width - 3)) * 10.0 ** rng.uniform(-3, 6, (m, 1))).astype(env.dtype)], 1)
            t = rng.normal(size=m).astype(env.dtype) * 1e3
            ok, got = mon.call("field", jax.jit(jax.vmap(f)), t, x, a)
            if not ok:
                continue
            got = np.asarray(got)
            if not mon.require("field", got.shape == (m, 3), dict(model=name, shape=list(got.shape)), "acceleration is a 3-vector"):
                continue
            ref = O.zonal_acc(pos, a["mu"], a[jk] if jk else 0, a["R_eq"], n)
            s = scale(n, pos, a)
            q = in_range(env, n, pos, a)
            w = dict(x=x[q][:, :6], t=t[q], got=got[q], ref=ref[q].astype(float), model=name, **{k: v[q] for k, v in a.items()})
            mon.judge("field", O.norm(O.ld(got) - ref)[q], (C * env.eps * s)[q], w,
                      np.array([f"{name}/{l}/w{width}" for l in lab], object)[q],
                      known={k: v[q] for k, v in known_mask(env, name, pos, a, got).items()}, trivial=(s == 0)[q])
        # event by event, eagerly, with argument dictionaries as a user writes them
        m = env.n(24, 120)
        lab, pos, a = batch(rng, m, env.dtype)
        q = in_range(env, n, pos, a)
        for i in np.nonzero(q)[0]:
            keys = ["mu"] + ([jk, "R_eq"] if jk else [])
            ai = {k: (float(a[k][i]) if i % 2 else jnp.asarray(a[k][i])) for k in keys}
            if i % 3 == 0:
                ai.update(rmin=0.5, note=jnp.ones(3), J7=9.0)
            if i % 4 == 1:
                ai = {k: float(a[k][i]) for k in a}
            x = jnp.asarray(np.concatenate([pos[i], rng.normal(size=3).astype(env.dtype)]) if i % 2 else pos[i])
            ok, got = mon.call("field-eager", f, float(i), x, ai, witness=dict(model=name, x=x, args=ai))
            if not ok:
                continue
            got = np.asarray(got)[None]
            a1 = {k: v[i : i + 1] for k, v in a.items()}
            if not mon.require("field-eager", got.shape == (1, 3), dict(model=name, shape=list(got.shape)), "3-vector"):
                continue
            ref = O.zonal_acc(pos[i : i + 1], a1["mu"], a1[jk] if jk else 0, a1["R_eq"], n)
            mon.judge("field-eager", O.norm(O.ld(got) - ref), C * env.eps * scale(n, pos[i : i + 1], a1),
                      dict(x=np.asarray(x)[None], model=name, got=got, ref=ref.astype(float), **a1), f"{name}/{lab[i]}",
                      known=known_mask(env, name, pos[i : i + 1], a1, got))
        # documented defaults: mu=1, J=0, R_eq=1
        x = jnp.asarray(positions(rng, 1, np.ones(1), env.dtype)[0])
        ok, got = mon.call("defaults", f, 0.0, x)
        if ok:
            ref = O.zonal_acc(np.asarray(x)[None], LD(1), LD(0), LD(1), 0) if n == 0 else np.zeros((1, 3), LD)
            mon.judge("defaults", O.norm(O.ld(np.asarray(got))[None] - ref), C * env.eps * (O.norm(ref)), dict(x=np.asarray(x)[None], model=name, got=np.asarray(got)[None]), name)
        # conservative and source-free: the Jacobian is symmetric and has no trace
        m = env.n(200, 2000)
        lab, pos, a = batch(rng, m, env.dtype)
        # keep clear of the float32 range in this derived monitor
        r = np.linalg.norm(pos.astype(float), axis=1)
        q = in_range(env, n, pos, a) & (r < 1e4) & (r > 1e-2) & (scale(n, pos, a) > 1e-20)
        if not env.x64 and n >= 3:
            q &= (r > 0.1) & (np.abs(a["mu"].astype(float) * a[f"J{n}"]) * a["R_eq"].astype(float) ** n > 1e-20)
        pos, a, lab = pos[q], {k: v[q] for k, v in a.items()}, lab[q]
        jac = jax.jit(jax.vmap(jax.jacfwd(lambda x, aa: f(0.0, x, aa)), in_axes=(0, 0)))
        ok, J = mon.call("conservative", jac, pos, a)
        if ok:
            J = O.ld(np.asarray(J))
            s = scale(n, pos, a) / O.norm(O.ld(pos)) * (n + 3)
            w = dict(x=pos, model=name, J=J.astype(float), **a)
            reg = np.array([f"{name}/{l}" for l in lab], object)
            kn = {}
            if not env.x64 and n >= 3:
                # float32: the derivative of the quotient by r**7 multiplies by r**-14, which is
                # below the normal range
                r = O.norm(O.ld(pos))
                kn = {f"{name}-float32-r14": r**14 > 0.99 / float(np.finfo(np.float32).tiny)}
            mon.judge("conservative", np.abs(J - np.swapaxes(J, 1, 2)).max((1, 2)), C * env.eps * s, w, reg, known=kn)
            mon.judge("conservative", np.abs(np.trace(J, axis1=1, axis2=2)), C * env.eps * s, w, reg, known=kn)
