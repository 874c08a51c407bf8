"""Workload drivers shared by the table-driven properties."""

import numpy as np

from . import oracle as O, table as T

LD = np.longdouble


def decade(x):
    x = np.abs(np.asarray(x, dtype=np.float64))
    while x.ndim > 1:
        x = x.max(axis=-1)
    with np.errstate(all="ignore"):
        d = np.floor(np.log10(x))
    return np.where(np.isfinite(d), np.clip(d, -30, 30), -99).astype(int)


def regimes(fn, inp):
    """Coarse label per event: decade of the first two arguments and signs."""
    ds = [decade(inp[nm]) for nm in fn.names[:2]]
    return np.array([fn.name + ":" + "/".join(str(int(d[i])) for d in ds) for i in range(len(ds[0]))], dtype=object)


def expected_shape(kind, n):
    return {"s": (n,), "a": (n,), "V": (n,), "A": (n,), "b": (n,), "i": (n,), "v": (n, 3), "K": (n, 3), "m": (n, 3, 3), "M": (n, 6, 6)}[kind]


def allowance(fn, env, inp, refs, rng, ulp=None):
    """Allowed error per output: C eps (conditioning + size), and a mask of events that are
    decidable (for discrete outputs: the answer does not change within a few hundred ulps)."""
    delta = 1e-8 if not any(k in ("b", "i") for k, _ in fn.outs) else 400 * env.eps
    cond = T.conditioning(fn, inp, refs, rng, delta=delta)
    out = []
    for j, (k, _) in enumerate(fn.outs):
        n = np.shape(refs[j])[0]
        if k in ("b", "i"):
            ok = cond[j] == 0
            if fn.border is not None:
                ok &= ~fn.border({q: O.ld(w) for q, w in inp.items()}, env.eps)
            out.append((np.zeros(n, LD), ok))
        else:
            floor = 0 if fn.scale_floor is None else fn.scale_floor({q: O.ld(w) for q, w in inp.items()})
            tol = (ulp or fn.ulp) * env.eps * (cond[j] + T.size_of(k, refs[j])) + 8 * env.eps * floor + 16 * LD(np.finfo(env.dtype).tiny)
            with np.errstate(all="ignore"):
                mag = T.size_of(k, refs[j])
                fin = np.isfinite(tol.astype(np.float64)) & np.isfinite(mag.astype(np.float64))
                # results outside the range of the working precision are not judged
                fin &= mag < 1e-3 * float(np.finfo(env.dtype).max)
            out.append((tol, fin))
    return out


def judge_table(mon, env, monitor, fn, inp, outs, refs=None, allow=None, extra=1.0, label=None):
    refs = fn.refs(inp) if refs is None else refs
    allow = allowance(fn, env, inp, refs, env.rng) if allow is None else allow
    reg = regimes(fn, inp) if label is None else np.array([label] * len(inp[fn.names[0]]), dtype=object)
    good = True
    n = len(inp[fn.names[0]])
    for j, (k, _) in enumerate(fn.outs):
        if outs[j].shape != expected_shape(k, n):
            mon.require(monitor, False, dict(fn=fn.name, shape=list(outs[j].shape), expected=list(expected_shape(k, n))), "shape of the result")
            good = False
            continue
        tol, ok = allow[j]
        if not ok.any():
            continue
        e = T.err_of(k, outs[j], refs[j])
        w = {q: np.asarray(inp[q])[ok] for q in fn.names}
        w["got"] = outs[j][ok]
        w["ref"] = np.asarray(refs[j])[ok].astype(np.float64)
        w["function"] = fn.name
        good &= mon.judge(monitor, e[ok], (extra * tol)[ok], w, reg[ok])
    return good


_jit = {}


def jitted(fn, adx):
    import jax

    key = fn.name
    if key not in _jit:
        _jit[key] = jax.jit(fn.batched(adx))
    return _jit[key]


def drive(mon, env, adx, fn, n, monitor, style="jit", inp=None):
    """One batch of events through one public function, judged against the reference."""
    import jax

    inp = fn.make(env.rng, n, env.dtype) if inp is None else inp
    n = len(inp[fn.names[0]])
    args = fn.shape_args(inp)
    if style == "jit":
        f = jitted(fn, adx)
    elif style == "eager":
        f = fn.batched(adx)
    elif style == "rows":
        # one event at a time, Python-level
        f0 = fn.get(adx)

        def f(*a):
            rows = [f0(*[x[i] for x in a]) for i in range(n)]
            if fn.multi:
                return tuple(np.stack([np.asarray(r[j]) for r in rows]) for j in range(len(fn.outs)))
            return np.stack([np.asarray(r) for r in rows])

        args = [inp[nm] for nm in fn.names]
    elif style == "vmap":
        f = jax.vmap(fn.get(adx))
        args = [inp[nm] for nm in fn.names]
    elif style == "grid":
        # two leading batch axes, second of length 2..; only element-wise functions
        b = 2 if n % 2 == 0 else 1
        f0 = fn.get(adx)
        args = [a.reshape((n // b, b) + a.shape[1:]) for a in args]

        def f(*a):
            o = f0(*a)
            fl = lambda y: np.asarray(y).reshape((n,) + np.asarray(y).shape[2:])
            return tuple(fl(y) for y in o) if fn.multi else fl(o)
    ok, out = mon.call(monitor, f, *args, witness=dict(function=fn.name, style=style, **{q: inp[q][0] for q in fn.names}))
    if not ok:
        return None
    try:
        outs = fn.norm_out(out)
    except Exception as ex:  # noqa: BLE001
        mon.violate(monitor, f"unusable result: {ex}", dict(function=fn.name))
        return None
    if style == "rows" or style == "vmap":
        outs = [o[..., 0] if (k in ("V", "A") and o.ndim > 1) else o for (k, _), o in zip(fn.outs, outs)]
    judge_table(mon, env, monitor, fn, inp, outs)
    return inp, outs


SHAPES = ((1,), (1, 1), (3, 2, 2), (0,), (2, 0), (1, 6), (6, 1), (2, 1, 3), (4,), (2, 2, 2), (3, 3), (2, 2, 1, 3))
TAIL = {"s": (), "a": (), "V": (1,), "A": (1,), "v": (3,), "m": (3, 3)}


def batch_shapes(mon, env, adx, fn, monitor, shapes=SHAPES):
    """Element-wise functions accept every batch shape and return it, row by row the same values."""
    inp = fn.make(env.rng, 12, env.dtype)
    f = fn.get(adx)
    for sh in shapes:
        k = int(np.prod(sh))
        rows = {q: inp[q][:k] for q in fn.names}
        args = [rows[q].reshape(sh + rows[q].shape[1:] + ((1,) if q in fn.col else ())) for q in fn.names]
        w = dict(function=fn.name, batch=list(sh), **{q: inp[q][0] for q in fn.names})
        ok, out = mon.call(monitor, f, *args, witness=w)
        if not ok:
            continue
        outs = [np.asarray(o) for o in (out if fn.multi else [out])]
        want = [sh + TAIL[kk] if kk in TAIL else sh for kk, _ in fn.outs]
        if mon.require(monitor, [o.shape for o in outs] == want, dict(w, got=[list(o.shape) for o in outs], want=[list(x) for x in want]), "shape of the result of a batch", f"{fn.name}:{len(sh)}") and k:
            flat = [o.reshape((k,) + o.shape[len(sh) :]) for o in outs]
            flat = [o[..., 0] if kk in ("V", "A") else o for (kk, _), o in zip(fn.outs, flat)]
            judge_table(mon, env, monitor, fn, rows, flat, label=f"{fn.name}:{sh}")


def drive_group(mon, env, adx, groups, monitor, n, rounds=1, only=None, eager=True, rows=12, free=False):
    for nm, fn in T.TABLE.items():
        if fn.group not in groups or (only and nm not in only):
            continue
        for _ in range(rounds):
            drive(mon, env, adx, fn, n, monitor)
        if free and nm != "dxdx0":  # (whose two states must belong to one orbit)
            for _ in range(max(1, rounds // 2)):
                inp = T.free_values(fn, env.rng, 3 * n, env.dtype)
                if len(inp[fn.names[0]]) > 10:
                    drive(mon, env, adx, fn, n, monitor, inp=inp)
        if nm not in T.CONSISTENT:
            for _ in range(max(1, rounds // 2)):
                inp = T.lattice_values(fn, env.rng, n // 2, env.dtype)
                drive(mon, env, adx, fn, 0, monitor, inp=inp)
        if eager and fn.style == "ew":
            drive(mon, env, adx, fn, 64, monitor, "eager")
            drive(mon, env, adx, fn, 24, monitor, "grid")
            k = env.rng.integers(1, len(SHAPES), 2)
            batch_shapes(mon, env, adx, fn, monitor, (SHAPES[0],) + tuple(SHAPES[j] for j in k))
        if rows:
            drive(mon, env, adx, fn, rows, monitor, "rows")
