"""C24: the same call, transformed, gives the same results.

Every public function is driven through program transformations (compiled, vectorised over subsets
of its arguments and over other axes, nested, looped, broadcast, with constants folded in, next to
hostile rows); each observed row is judged against the reference and so against every other form.
"""

import numpy as np

from .. import oracle as O, table as T
from ..common import batch_shapes, judge_table

LD = np.longdouble


def family(fn, rng, n, dtype):
    """n neighbours of one situation: every argument may be combined with every other row's."""
    base = fn.make(rng, 1, dtype)
    out = {}
    for nm, k, _ in fn.args:
        x = base[nm].astype(np.float64)
        x = np.repeat(x, n, axis=0)
        x = x * (1 + 1e-3 * rng.uniform(-1, 1, x.shape))
        if nm == "e":  # stay on the same side of the parabola
            b = float(base[nm][0])
            x = np.where(b < 1, np.minimum(x, (1 + b) / 2), np.maximum(x, (1 + b) / 2))
        out[nm] = x.astype(dtype)
    return out


def physical(fn, inp):
    n = len(inp[fn.names[0]])
    if fn.name == "solve_kepler_uni":
        q = {k: O.ld(v) for k, v in inp.items()}
        p = q["r0"] * (2 - q["alpha"] * q["r0"]) - q["sigma0"] ** 2
        return p > 1e-6 * q["r0"]
    return np.ones(n, bool)


def take(fn, inp, ok):
    return {k: inp[k][ok] for k in fn.names}


def strip(fn, outs, lead):
    """Row results of the plain call, flattened over `lead` batch axes."""
    res = []
    for (k, _), o in zip(fn.outs, outs):
        o = np.asarray(o)
        o = o.reshape((-1,) + o.shape[lead:])
        if k in ("V", "A") and o.ndim > 1 and o.shape[-1] == 1:
            o = o[..., 0]
        if k == "K":
            o = o.reshape(len(o), 3)
        res.append(o)
    return res


def leaves(fn, out):
    if fn.blocks:
        return T.split_blocks(np.asarray(out))
    return list(out) if fn.multi else [out]


def run(mon, env, adx):
    import jax
    import jax.numpy as jnp

    rng, F = env.rng, env.dtype
    if env.part == 2:
        propagators(mon, env, adx)
    heavy = ("kepler",)
    table = [(nm, fn) for i, (nm, fn) in enumerate(T.TABLE.items()) if (2 if nm in heavy else i % 2) == env.part]
    loops = ("solve_kepler_elps", "solve_kepler_hypb", "solve_kepler_uni", "kepler", "dxdx0", "rv2coe", "coe2rv", "ufunc3", "pass_perigee")

    def judge(monitor, fn, inp, outs, label):
        ok = physical(fn, inp)
        if not ok.any():
            return
        if any(o.shape[:1] != (len(ok),) for o in outs):
            mon.require(monitor, False, dict(function=fn.name, shapes=[list(o.shape) for o in outs], rows=len(ok)), "one result per row")
            return
        judge_table(mon, env, monitor, fn, take(fn, inp, ok), [o[ok] for o in outs], label=f"{fn.name}:{label}")

    for nm, fn in table:
        f0 = fn.get(adx)
        n = 6
        full = loops if not env.thorough else tuple(T.TABLE)
        reps = env.n(4, 16)

        # -------------------------------------------------- vectorised over a subset of the arguments
        subsets = []
        for _ in range(3 if nm in full else 1):
            s = rng.random(len(fn.names)) < 0.5
            if not s.any():
                s[rng.integers(len(s))] = True
            subsets.append(s)
        for s in subsets:
            consts = rng.random(len(s)) < 0.4  # of the others, some become constants of the program
            names = [q for q, m in zip(fn.names, s) if m]
            axes = tuple((0 if m else None) for m in s)
            g = jax.jit(jax.vmap(f0, in_axes=axes))
            for rep in range(reps):
                inp = family(fn, rng, n, F)
                for q, m in zip(fn.names, s):
                    if not m:
                        inp[q] = np.repeat(inp[q][:1], n, axis=0)
                w = dict(function=nm, mapped=names, **{q: inp[q][0] for q in fn.names})
                if rep == 0 and consts.any():
                    const = {i: (float(inp[q][0]) if np.ndim(inp[q][0]) == 0 else inp[q][0]) for i, q in enumerate(fn.names) if not s[i] and consts[i]}
                    free = [i for i in range(len(s)) if i not in const]

                    def h(*a, _c=const, _f=free):
                        full_ = dict(zip(_f, a))
                        full_.update(_c)
                        return f0(*[full_[i] for i in range(len(full_))])

                    gg = jax.jit(jax.vmap(h, in_axes=tuple(0 if s[i] else None for i in free)))
                    ok, out = mon.call("mapped", gg, *[inp[fn.names[i]] if s[i] else inp[fn.names[i]][0] for i in free], witness=dict(w, constant=[fn.names[i] for i in const]))
                    if ok:
                        judge("mapped", fn, inp, strip(fn, leaves(fn, out), 1), "constants")
                    continue
                ok, out = mon.call("mapped", g, *[inp[q] if m else inp[q][0] for q, m in zip(fn.names, s)], witness=w)
                if not ok:
                    break
                judge("mapped", fn, inp, strip(fn, leaves(fn, out), 1), "+".join(names))

        # -------------------------------------------------- nested vectorisation: a grid of two subsets
        if len(fn.names) > 1 and (nm in full or rng.random() < 0.4):
            s = rng.random(len(fn.names)) < 0.5
            s[rng.integers(len(s))] = True
            s[rng.integers(len(s))] = False
            a, b = 3, 4
            inner = tuple(None if m else 0 for m in s)
            outer = tuple(0 if m else None for m in s)
            g = jax.jit(jax.vmap(jax.vmap(f0, in_axes=inner) if not all(s) else f0, in_axes=outer)) if s.any() else None
            if g is not None and not all(s):
                for _ in range(reps):
                    inp = family(fn, rng, max(a, b), F)
                    args = [inp[q][:a] if m else inp[q][:b] for q, m in zip(fn.names, s)]
                    flat = {q: (np.repeat(x, b, axis=0) if m else np.concatenate([x] * a, axis=0)) for q, x, m in zip(fn.names, args, s)}
                    ok, out = mon.call("nested", g, *args, witness=dict(function=nm, outer=[q for q, m in zip(fn.names, s) if m], **{q: flat[q][0] for q in fn.names}))
                    if not ok:
                        break
                    judge("nested", fn, flat, strip(fn, leaves(fn, out), 2), "grid")

        # -------------------------------------------------- loops over rows, other axes
        if nm in full or rng.random() < 0.4:
            g = jax.jit(lambda *a: jax.lax.map(lambda row: f0(*row), a))
            for _ in range(reps):
                inp = fn.make(rng, n, F)
                ok, out = mon.call("loop", g, *[inp[q] for q in fn.names], witness=dict(function=nm, **{q: inp[q][0] for q in fn.names}))
                if not ok:
                    break
                judge_table(mon, env, "loop", fn, inp, strip(fn, leaves(fn, out), 1), label=nm)
        if any(k == "v" for _, k, _ in fn.args) and (nm in full or rng.random() < 0.5):
            axes = tuple(1 if k == "v" and rng.random() < 0.7 else 0 for _, k, _ in fn.args)
            g = jax.jit(jax.vmap(f0, in_axes=axes, out_axes=-1))
            for _ in range(reps):
                inp = fn.make(rng, n, F)
                ok, out = mon.call("axes", g, *[inp[q].T if x else inp[q] for q, x in zip(fn.names, axes)], witness=dict(function=nm, axes=list(axes), **{q: inp[q][0] for q in fn.names}))
                if not ok:
                    break
                o = [np.moveaxis(np.asarray(y), -1, 0) for y in jax.tree_util.tree_leaves(out)]
                judge_table(mon, env, "axes", fn, inp, strip(fn, leaves(fn, o if fn.multi else o[0]), 1), label=nm)

        # -------------------------------------------------- one event, plain and compiled
        g = jax.jit(f0)
        inp = fn.make(rng, n, F)
        rows = [[], []]
        good = True
        for i in range(n):
            for j, h in enumerate((g, f0)):
                if j and i > 2:
                    continue
                ok, out = mon.call("single", h, *[inp[q][i] for q in fn.names], witness=dict(function=nm, compiled=j == 0, **{q: inp[q][i] for q in fn.names}))
                good &= ok
                if ok:
                    rows[j].append([np.asarray(o) for o in leaves(fn, out)])
        if good:
            for j, lab in ((0, "compiled"), (1, "plain")):
                m = len(rows[j])
                outs = strip(fn, [np.stack([r[q] for r in rows[j]]) for q in range(len(fn.outs))], 1)
                judge_table(mon, env, "single", fn, {q: inp[q][:m] for q in fn.names}, outs, label=f"{nm}:{lab}")

        # -------------------------------------------------- some arguments single, the others batched
        if fn.style == "ew" and len(fn.names) > 1 and all(k != "v" for _, k, _ in fn.args) and not fn.col and nm != "coe2rv":
            K = len(fn.names)
            masks = [[i == j for i in range(K)] for j in range(K)]
            masks += [[i != j for i in range(K)] for j in range(K)] if K > 2 else []
            for mask in masks:
                m = int(rng.integers(1, 5))
                inp = family(fn, rng, m, F)
                sh = (m,) if rng.random() < 0.7 else (1, m)
                plain = [float, F, lambda v: jnp.asarray(v, F)][rng.integers(3)]
                args = [inp[q].reshape(sh) if on else plain(inp[q][0]) for q, on in zip(fn.names, mask)]
                flat = {q: inp[q] if on else np.full(m, inp[q][0]) for q, on in zip(fn.names, mask)}
                ok, out = mon.call("broadcast", f0, *args, witness=dict(function=nm, batched=[q for q, on in zip(fn.names, mask) if on], **{q: flat[q][0] for q in fn.names}))
                if not ok:
                    break
                outs = [np.asarray(o) for o in leaves(fn, out)]
                if mon.require("broadcast", all(o.shape[: len(sh)] == sh for o in outs), dict(function=nm, shapes=[list(np.shape(y)) for y in args], got=[list(o.shape) for o in outs]), "shape of the broadcast result"):
                    judge_table(mon, env, "broadcast", fn, flat, strip(fn, outs, len(sh)), label=nm)

        # -------------------------------------------------- broadcasting of batch shapes
        if fn.style == "ew":
            batch_shapes(mon, env, adx, fn, "batch-shapes")
            for _ in range(env.n(2, 12)):
                a, b = (2, 3) if rng.random() < 0.5 else (3, 3)
                inp = family(fn, rng, 3, F)
                args, flat = [], {}
                for (q, k, _), r in zip(fn.args, rng.integers(0, 4, len(fn.args))):
                    x = inp[q]
                    tail = x.shape[1:] + ((1,) if q in fn.col else ())
                    # as (a, 1), (b), (a, b) or a single event
                    if r == 0:
                        y = x[:a].reshape((a, 1) + tail)
                    elif r == 1:
                        y = x[:b].reshape((b,) + tail)
                    elif r == 2:
                        y = np.stack([x[:b], x[:b][::-1], np.roll(x[:b], 1, axis=0)][:a]).reshape((a, b) + tail)
                    else:
                        y = x[0].reshape(tail) if tail else x[0]
                    z = np.broadcast_to(y, (a, b) + tail).reshape((a * b,) + tail)
                    flat[q] = z[..., 0] if q in fn.col else z
                    args.append(y)
                full_shape = any(np.shape(y)[: 2 + 0][:1] == (a,) and np.ndim(y) - len(inp[q].shape[1:]) - (q in fn.col) == 2 for y, q in zip(args, fn.names))
                have_b = any(np.ndim(y) - len(inp[q].shape[1:]) - (q in fn.col) >= 1 and np.shape(y)[np.ndim(y) - len(inp[q].shape[1:]) - (q in fn.col) - 1] == b for y, q in zip(args, fn.names))
                if not (full_shape and have_b) or nm in ("rv2coe", "coe2rv"):  # these squeeze or stack: C15 has their broadcasting
                    continue
                ok, out = mon.call("broadcast", f0, *args, witness=dict(function=nm, shapes=[list(np.shape(y)) for y in args], **{q: flat[q][0] for q in fn.names}))
                if not ok:
                    break
                outs = []
                shape_ok = True
                for o in leaves(fn, out):
                    o = np.asarray(o)
                    shape_ok &= o.shape[:2] == (a, b)
                    outs.append(o)
                if mon.require("broadcast", shape_ok, dict(function=nm, shapes=[list(np.shape(y)) for y in args], got=[list(o.shape) for o in outs]), "shape of the broadcast result"):
                    judge_table(mon, env, "broadcast", fn, flat, strip(fn, outs, 2), label=nm)

        # -------------------------------------------------- rows next to hostile rows
        if nm in full or rng.random() < 0.3:
            m = 16
            g = jax.jit(jax.vmap(f0))
            forms = [("vmap", lambda a: g(*a))]
            if fn.style == "ew":
                forms.append(("batch", lambda a: f0(*a)))
            for _ in range(env.n(2, 8)):
                inp = fn.make(rng, m, F)
                bad = {q: inp[q].copy() for q in fn.names}
                hit = rng.choice(m, m // 2, replace=False)
                for q in fn.names:
                    for i in hit:
                        v = rng.choice([np.nan, np.inf, -np.inf, 0.0, -1.0, float(np.finfo(F).max), float(np.finfo(F).tiny)])
                        if np.ndim(bad[q][i]):
                            bad[q][i] = v if rng.random() < 0.5 else bad[q][i] * F(v)
                        else:
                            bad[q][i] = v
                keep = np.setdiff1d(np.arange(m), hit)
                for lab, h in forms:
                    args = [bad[q] for q in fn.names]
                    if lab == "batch":
                        args = [x[:, None] if q in fn.col else x for q, x in zip(fn.names, args)]
                    ok, out = mon.call("neighbours", h, args, witness=dict(function=nm, form=lab))
                    if not ok:
                        break
                    outs = strip(fn, leaves(fn, out), 1)
                    if all(o.shape[:1] == (m,) for o in outs):
                        judge_table(mon, env, "neighbours", fn, {q: inp[q][keep] for q in fn.names}, [o[keep] for o in outs], label=f"{nm}:{lab}")
                    else:
                        mon.require("neighbours", False, dict(function=nm, shapes=[list(o.shape) for o in outs]), "one result per row")


def propagators(mon, env, adx):
    import diffrax
    import jax
    import jax.numpy as jnp

    rng, F = env.rng, env.dtype
    P = adx.prop
    tol = 1e-5 if env.x64 else 2e-3
    pid = diffrax.PIDController(rtol=1e-8, atol=1e-8) if env.x64 else diffrax.PIDController(rtol=1e-5, atol=1e-5)

    def field(t, x, args):
        return jnp.stack([x[1], -args["k"] * x[0]])

    def exact(x, k, t):
        w = np.sqrt(k)
        return np.stack([x[0] * np.cos(w * t) + x[1] / w * np.sin(w * t), x[1] * np.cos(w * t) - x[0] * w * np.sin(w * t)], -1)

    def low(t, y, args, **kw):
        return y[0] + args["level"]

    term = diffrax.ODETerm(field)
    ev = diffrax.Event(lambda t, y, args, **kw: y[0] < -args["level"])

    def mk(mode, event):
        def f(x, t1, k, dt, ts):
            od = P.OrbDynx(terms=term, args={"k": k, "level": jnp.asarray(0.5, F)}, event=ev if event else None)
            if mode == "to_final":
                s = P.to_final(od, x, t1, stepsize_controller=pid)
            elif mode == "fixed_steps":
                s = P.fixed_steps(od, x, t1, dt, max_steps=600)
            elif mode == "adaptive_steps":
                s = P.adaptive_steps(od, x, t1, max_steps=600, stepsize_controller=pid)
            elif mode == "custom_steps":
                s = P.custom_steps(od, x, t1, ts, stepsize_controller=pid)
            else:
                s = P.cowell_method(od, x, t1, diffrax.SaveAt(t0=True, t1=True), dt0=dt, stepsize_controller=pid)
            return s.ts, s.ys

        return f

    modes = ["to_final", "fixed_steps", "adaptive_steps", "custom_steps", "cowell_method"]
    n = 4
    for mode in modes:
        for event in (False, True):
            if mode == "custom_steps" and event:
                continue
            f = mk(mode, event)
            s = rng.random(5) < 0.5
            s[rng.integers(5)] = True
            if not env.thorough and event and mode != "adaptive_steps":
                continue
            forms = {
                "compiled-one-by-one": None,
                "vmap": jax.jit(jax.vmap(f)),
                "some": jax.jit(jax.vmap(f, in_axes=tuple(0 if m else None for m in s))),
                "map": jax.jit(lambda *a: jax.lax.map(lambda r: f(*r), a)),
                "plain": f,
            }
            g1 = jax.jit(f)
            if not env.thorough:
                forms.pop("map" if mode != "to_final" else "some")
            for rep in range(env.n(1, 5)):
                x = rng.uniform(-1, 1, (n, 2)).astype(F)
                if event:
                    x[:, 0] = np.abs(x[:, 0])
                t1 = rng.uniform(1, 5, n).astype(F) * F(rng.choice([-1, 1]))
                k = rng.uniform(0.5, 2, n).astype(F)
                dt = np.sign(t1) * rng.uniform(0.01, 0.02, n).astype(F)
                # epochs short of every final time, so that they fit any row
                ts = np.sign(t1)[:, None] * np.sort(rng.uniform(0, 1, (n, 5)), axis=1).astype(F)
                A = [x, t1, k, dt, ts]
                base = []
                for i in range(n):
                    ok, out = mon.call("propagation", g1, *[a[i] for a in A], witness=dict(mode=mode, form="compiled", row=i))
                    base.append(out if ok else None)
                if any(b is None for b in base):
                    continue
                for form, g in forms.items():
                    w = dict(mode=mode, form=form, event=event, mapped=s.astype(int) if form == "some" else [], x=x[0], t1=t1[0], k=k[0])
                    if form == "compiled-one-by-one":
                        out = [np.stack([np.asarray(b[j]) for b in base]) for j in (0, 1)]
                        B, bb = A, base
                    elif form == "plain":
                        ok, o = mon.call("propagation", g, *[jnp.asarray(a[0]) for a in A], witness=w)
                        if not ok:
                            continue
                        out = [np.asarray(q)[None] for q in o]
                        B, bb = [a[:1] for a in A], base[:1]
                    elif form == "some":
                        B = [a if m else np.repeat(a[:1], n, axis=0) for a, m in zip(A, s)]
                        ok, out = mon.call("propagation", g, *[a if m else a[0] for a, m in zip(A, s)], witness=w)
                        if not ok:
                            continue
                        bb = None
                    else:
                        ok, out = mon.call("propagation", g, *A, witness=w)
                        if not ok:
                            continue
                        B, bb = A, base
                    tsv, ysv = np.asarray(out[0]), np.asarray(out[1])
                    for i in range(len(tsv)):
                        fin = np.isfinite(tsv[i])
                        if not mon.require("propagation", fin.any(), dict(w, row=i), "the row has results"):
                            continue
                        t, y = tsv[i][fin].astype(float), ysv[i][fin].astype(float)
                        ref = exact(B[0][i].astype(float), float(B[2][i]), t)
                        e = np.abs(y - ref).max(1)
                        amp = 1 + np.abs(t).max() if mode != "fixed_steps" else 3
                        mon.judge("propagation", e, np.full(len(t), tol * amp), dict(t=t, y=y, mode=mode, form=form), f"{mode}:{form}:{'event' if event else 'free'}")
                        if bb is not None:
                            bt = np.asarray(bb[i][0])
                            bf = np.isfinite(bt)
                            # an accept/reject decision can tip over by rounding; the ends cannot
                            mon.judge("propagation", [abs(t[-1] - bt[bf][-1])], [(0.6 if event else 1e-5)], dict(last=t[-1:], mode=mode, form=form), f"{mode}:{form}:end")
                            mon.judge("propagation", [abs(int(fin.sum()) - int(bf.sum()))], [0 if mode in ("fixed_steps", "custom_steps", "to_final", "cowell_method") else 2], dict(rows=fin.sum()[None], mode=mode, form=form), f"{mode}:{form}:count")
