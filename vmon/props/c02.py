"""C02: rotation matrices."""

import numpy as np

from .. import oracle as O, table as T
from ..common import drive, judge_table

LD = np.longdouble


def run(mon, env, adx):
    import jax
    import jax.numpy as jnp

    rng = env.rng
    for ax, (nm, rf) in enumerate((("rotmat3dx", O.rotx), ("rotmat3dy", O.roty), ("rotmat3dz", O.rotz))):
        fn = T.TABLE[nm]
        f = fn.get(adx)
        for _ in range(env.n(2, 30)):
            got = drive(mon, env, adx, fn, 4000, "matrix")
        drive(mon, env, adx, fn, 200, "matrix", "eager")
        drive(mon, env, adx, fn, 24, "matrix", "grid")
        drive(mon, env, adx, fn, 40, "matrix", "rows")
        extra = [tuple(int(q) for q in rng.integers(0, 4, rng.integers(1, 6))) for _ in range(env.n(24, 300))]
        for sh in [(1,), (3,), (5, 1), (2, 3, 4), (0,), (4097,), (2, 0, 3), (0, 2, 1), (1, 1, 1, 1), *extra]:
            a = rng.uniform(-10, 10, sh).astype(env.dtype)
            ok, R = mon.call("shape", f, a)
            if ok:
                R = np.asarray(R)
                if mon.require("shape", R.shape == sh + (3, 3), dict(fn=nm, shape=list(sh), got=list(R.shape)), "batch shape kept", regime=f"{nm}/{len(sh)}d") and a.size:
                    judge_table(mon, env, "shape", fn, dict(angle=a.reshape(-1)), [R.reshape(-1, 3, 3)])
        for s in (0.0, 1.0, -2.5, 0, 2, 30):
            ok, R = mon.call("shape", f, s)
            if ok:
                R = np.asarray(R)
                if mon.require("shape", R.shape == (3, 3), dict(fn=nm, angle=s, got=list(R.shape)), "scalar angle gives one matrix"):
                    judge_table(mon, env, "shape", fn, dict(angle=np.asarray([s], env.dtype)), [R[None].astype(env.dtype)])
        if got is None:
            continue
        inp, (R,) = got
        a = inp["angle"]
        n = len(a)
        tol = 64 * env.eps * (1 + np.abs(O.ld(a)) * 0)
        L = O.ld(R)
        w = dict(angle=a, R=R, function=nm)
        mon.judge("orthonormal", np.abs(np.matmul(L, np.swapaxes(L, 1, 2)) - np.eye(3)).max((1, 2)), tol, w, nm)
        det = np.einsum("ni,ni->n", L[:, 0], np.cross(L[:, 1], L[:, 2]))
        mon.judge("orthonormal", np.abs(det - 1), tol, w, nm)
        e = np.eye(3)[ax]
        mon.judge("axis", np.abs(L @ e - e).max(1), 4 * env.eps, w, nm)
        # additivity and inverse, on the returned matrices
        b = rng.permutation(a)
        with np.errstate(all="ignore"):
            c = (a + b).astype(env.dtype)
        slack = np.abs(O.ld(a) + O.ld(b) - O.ld(c))  # the sum itself is rounded
        ok1, Rb = mon.call("group-law", jax.jit(f), b)
        ok2, Rc = mon.call("group-law", jax.jit(f), c)
        ok3, Rm = mon.call("group-law", jax.jit(f), -a)
        if ok1 and ok2 and ok3:
            d = np.abs(np.matmul(L, O.ld(np.asarray(Rb))) - O.ld(np.asarray(Rc))).max((1, 2))
            mon.judge("group-law", d, 64 * env.eps * (1 + np.abs(O.ld(a)) + np.abs(O.ld(b))) + slack, dict(a=a, b=b, function=nm), nm)
            mon.judge("group-law", np.abs(np.swapaxes(L, 1, 2) - O.ld(np.asarray(Rm))).max((1, 2)), tol, dict(a=a, function=nm), nm)
        # it rotates vectors by the angle about the axis, counter-clockwise (right-hand rule)
        v = rng.normal(size=(n, 3)).astype(env.dtype)
        ok, u = mon.call("acts", jax.jit(lambda aa, vv: jnp.einsum("nij,nj->ni", f(aa), vv)), a, v)
        if ok:
            V, A = O.ld(v), O.ld(a)
            k = np.broadcast_to(np.eye(3, dtype=LD)[ax], V.shape)
            rod = V * np.cos(A)[:, None] + np.cross(k, V) * np.sin(A)[:, None] + k * (O.dot(k, V) * (1 - np.cos(A)))[:, None]
            mon.judge("acts", O.norm(O.ld(np.asarray(u)) - rod), 64 * env.eps * (1 + np.abs(A)) * O.norm(V), dict(angle=a, v=v, function=nm), nm)
