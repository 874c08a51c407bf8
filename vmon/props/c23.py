"""C23: the precision of a result is that of its inputs; every numeric input type is accepted.

The same situation is presented in several types (JAX, NumPy, Python; integer, single, double and
mixtures); the executions are compared with each other and with the extended-precision reference.
"""

import types

import numpy as np

from .. import oracle as O, table as T
from ..common import allowance, jitted, regimes

LD = np.longdouble


def low_env(env):
    """Judge at single precision while the process runs with double precision enabled."""
    return types.SimpleNamespace(eps=float(np.finfo(np.float32).eps), dtype=np.float32, rng=env.rng, mode=env.mode)


# integer-valued arguments for which every public function is defined
def int_args(rng, n, fn):
    out = {}
    for nm, k, _ in fn.args:
        if k == "v":
            x = rng.integers(-6, 7, (n, 3))
            x[:, 0] = np.where(x[:, 0] == 0, 1, x[:, 0])
            out[nm] = x
        else:
            out[nm] = rng.integers(1, 10, n)
    ell = fn.name in ("kepler_equ_elps", "dE", "solve_kepler_elps", "semipara_from_ae")
    hyp = fn.name in ("kepler_equ_hypb", "dH", "solve_kepler_hypb", "radius_apoapsis", "a_from_pe")
    if "e" in out and fn.name not in ("radius_periapsis",):
        out["e"] = rng.integers(2, 9, n) if hyp else np.zeros(n, int)
        if fn.name in ("equ_of_orbit", "coe2rv"):
            out["e"] = rng.integers(0, 2, n)
    for q in ("M", "N", "E", "deltat", "sigma0", "sigma", "tof", "ts"):
        if q in out and fn.name not in ("nmax_by_periapsis",):
            out[q] = rng.integers(-9, 10, n)
    if fn.name == "nmax_by_periapsis":
        out["tof"] = rng.integers(20, 400, n)
    for q in ("H", "f", "true_anom", "raan", "argp"):
        if q in out:
            out[q] = rng.integers(-1, 2, n)
    if "incl" in out:
        out["incl"] = rng.integers(0, 4, n)
    if "alpha" in out:
        out["alpha"] = rng.integers(-2, 3, n)
        if "chi" in out:
            out["chi"] = rng.integers(-4, 5, n)
    if fn.name in ("mean_anomaly_hypb",):
        out["a"] = -out["a"]
    if fn.name == "semipara_from_ae":
        out["e"] = np.zeros(n, int)
    if fn.name == "semimajor_axis":  # not a parabola
        out["mu"] = np.where(out["v_mag"] ** 2 * out["r_mag"] == 2 * out["mu"], out["mu"] + 1, out["mu"])
    if fn.group == "rot":
        out["angle"] = rng.integers(-9, 10, n)
    if fn.name == "solve_kepler_uni":  # a physical orbit: sigma0^2 < r0 (2 - alpha r0)
        out["alpha"] = rng.integers(-2, 2, n)
        out["r0"] = np.where(out["alpha"] == 1, 1, out["r0"])
        out["sigma0"] = np.where(out["alpha"] == 1, 0, rng.integers(-1, 2, n))
    # a position and a velocity must not be parallel, nor the angular momentum along z
    pairs = [("pos_vec", "vel_vec"), ("r_vec", "v_vec"), ("r0_vec", "v0_vec"), ("r1", "v1"), ("r", "v"), ("pos_vec", "e_vec"), ("node_vec", "e_vec")]
    for a, b in pairs:
        if a in out and b in out and out[a].ndim == 2 and out[b].ndim == 2:
            x = out[a]
            x[:, 2] = np.where(rng.random(n) < 0.5, 0, x[:, 2])
            out[b] = np.stack([x[:, 1] * 0 + rng.integers(-1, 2, n), 2 + np.abs(x[:, 0]), rng.integers(1, 3, n) + np.abs(x[:, 2])], 1)
    if "node_vec" in out:
        out["node_vec"][:, 2] = 0
    if "h_vec" in out:
        out["h_vec"][:, 2] = np.where(out["h_vec"][:, 2] == 0, 1, out["h_vec"][:, 2])
    if "r2" in out and fn.group == "path" and out["r2"].ndim == 2:
        out["r2"] = -out["r1"] + 2 * out["v1"]
    return out


def run(mon, env, adx):
    import jax
    import jax.numpy as jnp

    if env.part == 2:
        gravity(mon, env, adx)
        propagators(mon, env, adx)
    rng = env.rng
    wide = env.x64
    F = env.dtype
    heavy = ("kepler", "dxdx0")  # slow to trace
    table = [(nm, fn) for i, (nm, fn) in enumerate(T.TABLE.items()) if (2 if nm in heavy else i % 2) == env.part]

    def dtypes(fn, out):
        return [np.asarray(o).dtype for o in jax.tree_util.tree_leaves(out)]

    # ---------------------------------------------------------------- one precision throughout
    for nm, fn in table:
        for style in ("jit", "eager")[: 2 if env.thorough else 1]:
            if style == "eager" and fn.style != "ew":
                continue
            n = 64
            inp = fn.make(rng, n, F)
            f = jitted(fn, adx) if style == "jit" else fn.batched(adx)
            ok, out = mon.call("same-precision", f, *fn.shape_args(inp), witness=dict(function=nm, style=style))
            if not ok:
                continue
            want = [np.dtype(bool) if k == "b" else None if k == "i" else np.dtype(F) for k, _ in fn.outs]
            got = [np.asarray(o).dtype for o in fn.norm_out(out)]
            for w_, g_ in zip(want, got):
                mon.require("same-precision", (g_ == w_) if w_ is not None else (g_ == np.dtype(F) or g_.kind in "iu"),
                            dict(function=nm, style=style, expected=str(w_), got=str(g_)), "type of the result")

    # ---------------------------------------------------------------- single precision while double is enabled; mixtures
    low = low_env(env)
    for nm, fn in table:
        if not wide:
            break
        inp = fn.make(rng, 64 if not env.thorough else 400, np.float32)
        refs = fn.refs(inp)
        allow = allowance(fn, low, inp, refs, rng)
        variants = [("single", {k: v for k, v in inp.items()})]
        for odd in fn.names[:]:
            variants.append((f"double {odd}", {k: (v.astype(np.float64) if k == odd else v) for k, v in inp.items()}))
            if len(fn.names) > 2:
                variants.append((f"single {odd}", {k: (v.astype(np.float64) if k != odd else v) for k, v in inp.items()}))
        if not env.thorough and len(variants) > 3:
            variants = [variants[0]] + [variants[i] for i in rng.choice(np.arange(1, len(variants)), 2, replace=False)]
        f = fn.batched(adx) if fn.style == "ew" and not env.thorough else jax.jit(fn.batched(adx))
        for lab, args in variants:
            w0 = dict(function=nm, variant=lab)
            monitor = "single" if lab == "single" else "mixed"
            ok, out = mon.call(monitor, f, *fn.shape_args(args), witness=w0)
            if not ok:
                continue
            try:
                outs = fn.norm_out(out)
            except Exception as ex:  # noqa: BLE001
                mon.violate(monitor, f"unusable result: {ex}", w0)
                continue
            for j, (k, _) in enumerate(fn.outs):
                g_ = outs[j].dtype
                mon.require(monitor, g_ == bool if k == "b" else (g_ in (np.dtype(np.float32), np.dtype(np.float64)) or (k == "i" and g_.kind in "iu")),
                            dict(w0, got=str(g_)), "type of the result")
                tol, good = allow[j]
                if good.any():
                    e = T.err_of(k, outs[j], refs[j])
                    mon.judge(monitor, e[good], tol[good], {**{q: inp[q][good] for q in fn.names}, "variant": lab, "function": nm, "got": outs[j][good], "ref": np.asarray(refs[j])[good].astype(float)}, f"{nm}:{lab}")

    # ---------------------------------------------------------------- Python and NumPy values, one event at a time
    for nm, fn in table:
        f0 = fn.get(adx)
        inp = fn.make(rng, 24, np.float32)  # exactly representable in both precisions
        refs = fn.refs(inp)
        e_ = types.SimpleNamespace(eps=env.eps, dtype=F, rng=rng)
        allow = allowance(fn, e_, inp, refs, rng)
        alow = allowance(fn, low, inp, refs, rng)
        for i in range(env.n(3, 24)):
            forms = {}
            for q in fn.names:
                x = inp[q][i]
                if np.ndim(x) == 0:
                    c = ["py", "np", "0d", "jax"][rng.integers(4)]
                    forms[q] = {"py": float(x), "np": F(x), "0d": np.asarray(x, F), "jax": jnp.asarray(x, F)}[c]
                else:
                    forms[q] = [np.asarray(x, F), np.asarray(x, np.float64), jnp.asarray(x, F)][rng.integers(3)]
            # plain numbers only: every scalar as a Python float
            if i == 0:
                forms = {q: float(inp[q][i]) if np.ndim(inp[q][i]) == 0 else np.asarray(inp[q][i], np.float64) for q in fn.names}
            w0 = dict(function=nm, forms=[type(forms[q]).__name__ for q in fn.names], **{q: inp[q][i] for q in fn.names})
            vals = list(forms.values())
            if nm in ("rv2coe",):
                vals = [v for v in vals]
            ok, out = mon.call("python-values", f0, *vals, witness=w0)
            if not ok:
                continue
            outs = list(out) if fn.multi else T.split_blocks(np.asarray(out)) if fn.blocks else [out]
            for j, (k, _) in enumerate(fn.outs):
                tol, good = allow[j] if wide else alow[j]
                o = np.asarray(outs[j])
                if k in ("V", "A") and o.ndim and o.shape[-1] == 1:
                    o = o[..., 0]
                if k == "K":
                    o = o.reshape(3)
                if k not in ("b", "i"):
                    # plain Python numbers may come back as Python numbers, which are double precision
                    mon.require("python-values", o.dtype.kind == "f" and o.dtype.itemsize >= np.dtype(F).itemsize, dict(w0, got=str(o.dtype)), "type of the result")
                if good[i]:
                    e = T.err_of(k, o[None], refs[j][i : i + 1])
                    mon.judge("python-values", e, tol[i : i + 1], {**{q: inp[q][i : i + 1] for q in fn.names}, "function": nm, "got": o[None]}, nm)

    # ---------------------------------------------------------------- integers
    for nm, fn in table:
        n = 64
        ints = int_args(rng, n, fn)
        fl = {k: v.astype(F) for k, v in ints.items()}
        f = fn.batched(adx) if fn.style == "ew" else jax.vmap(fn.get(adx))
        ok, ref = mon.call("integers", f, *fn.shape_args(fl), witness=dict(function=nm, form="float"))
        if not ok:
            continue
        ref = [np.asarray(o) for o in fn.norm_out(ref)]
        # how far one rounding of the inputs moves the float result: integers may be rounded elsewhere
        refs_ld = fn.refs(fl)
        allow = allowance(fn, types.SimpleNamespace(eps=env.eps, dtype=F, rng=rng), fl, refs_ld, rng)
        alow = allowance(fn, low, fl, refs_ld, rng)
        masks = [np.ones(len(fn.names), bool)]
        for _ in range(env.n(1, 6)):
            masks.append(rng.random(len(fn.names)) < 0.5)
        for mk in masks:
            if not mk.any():
                continue
            t = [np.int32, np.int64][rng.integers(2)] if wide else np.int32
            args = {q: (ints[q].astype(t) if m else fl[q]) for q, m in zip(fn.names, mk)}
            w0 = dict(function=nm, integer=[q for q, m in zip(fn.names, mk) if m], type=t.__name__)
            ok, out = mon.call("integers", f, *fn.shape_args(args), witness=w0)
            if ok:
                # 32-bit integers count as single precision
                compare_int(mon, fn, w0, fn.norm_out(out), ref, refs_ld, alow if t is np.int32 else allow, ints)
        # one Python number among arrays, one array among Python numbers
        scal = [q for q in fn.names if ints[q].ndim == 1]
        if fn.style == "ew" and len(fn.names) > 1 and not fn.col and nm not in ("rv2coe", "coe2rv"):
            f0 = fn.get(adx)
            picks = [({q}, w_) for q in scal for w_ in (int, float)]
            picks += [(set(scal) - {q}, w_) for q in scal for w_ in (int, float)] if len(scal) > 2 else []
            if not env.thorough:
                picks = [picks[i] for i in rng.permutation(len(picks))[:6]] + [({q}, int) for q in scal]
            for which, py in picks:
                m = int(rng.integers(0, 5))
                i = rng.choice(n, max(m, 1), replace=False)
                base_ = {q: np.repeat(ints[q][i[:1]], max(m, 1), axis=0) if q in which else ints[q][i] for q in fn.names}
                if nm == "solve_kepler_uni" or (set(fn.names) - which) & {"r1", "r2", "v1", "r0_vec", "v0_vec"} or fn.name in T.CONSISTENT:
                    base_ = {q: np.repeat(ints[q][i[:1]], max(m, 1), axis=0) for q in fn.names}
                wrap = (jnp.asarray, np.asarray)[rng.integers(2)]
                args = [py(base_[q][0]) if q in which else wrap(base_[q].astype(F) if m else base_[q][0].astype(F)) for q in fn.names]
                w0 = dict(function=nm, python=sorted(which), type=py.__name__, rows=m, values=args)
                ok, out = mon.call("integers", f0, *args, witness=w0)
                if not ok or all(np.ndim(a) == 0 and not hasattr(a, "dtype") for a in args):
                    continue
                outs = [np.asarray(o) for o in (list(out) if fn.multi else [out])]
                for j, (k, _) in enumerate(fn.outs):
                    if k not in ("b", "i"):
                        mon.require("integers", outs[j].dtype == F, dict(w0, got=str(outs[j].dtype)), "the type of the arrays", nm)
                fb = {q: v.astype(F) for q, v in base_.items()}
                rl = fn.refs(fb)
                al = allowance(fn, types.SimpleNamespace(eps=env.eps, dtype=F, rng=rng), fb, rl, rng)
                for j, (k, _) in enumerate(fn.outs):
                    tol, good = al[j]
                    o = outs[j]
                    r_ = np.asarray(rl[j])
                    if o.size != r_.size:
                        mon.require("integers", k not in ("s", "b", "i", "a"), dict(w0, shape=list(o.shape)), "shape of the result", nm)
                        continue
                    if good.any():
                        mon.judge("integers", T.err_of(k, o.reshape(r_.shape), r_)[good], tol[good], {**{q: fb[q][good] for q in fn.names}, "function": nm, "got": o.reshape(r_.shape)[good]}, nm + ":one python number")

        # Python integers, one event
        f0 = fn.get(adx)
        for i in range(env.n(4, 16)):
            vals = [int(ints[q][i]) if ints[q].ndim == 1 else ints[q][i] for q in fn.names]
            w0 = dict(function=nm, integer="python", values=vals)
            ok, out = mon.call("integers", f0, *vals, witness=w0)
            if ok:
                outs = list(out) if fn.multi else T.split_blocks(np.asarray(out)) if fn.blocks else [out]
                outs = [np.asarray(o).reshape(np.shape(r[i])) if np.size(o) == np.size(r[i]) else np.asarray(o) for o, r in zip(outs, ref)]
                if wide:  # plain integers and 64-bit arrays: nothing in the call is single precision
                    bad = [str(o.dtype) for o in outs if o.dtype.kind == "f" and o.dtype != np.float64]
                    mon.require("integers", not bad, dict(w0, got=bad), "double precision in, double precision out")
                compare_int(mon, fn, w0, [o[None] for o in outs], [r[i : i + 1] for r in ref], [r[i : i + 1] for r in refs_ld], [(a[i : i + 1], b[i : i + 1]) for a, b in allow], {k: v[i : i + 1] for k, v in ints.items()})


def compare_int(mon, fn, w0, outs, ref, refs_ld, allow, ints):
    for j, (k, _) in enumerate(fn.outs):
        o, r = np.asarray(outs[j]), ref[j]
        mon.require("integers", o.dtype.kind in "fbiu" and (o.dtype.kind != "b" or k == "b"), dict(w0, got=str(o.dtype)), "type of the result")
        if o.shape != r.shape:
            mon.require("integers", False, dict(w0, shape=list(o.shape), expected=list(r.shape)), "shape of the result")
            continue
        tol, good = allow[j]
        fin = np.isfinite(r.astype(np.float64)).reshape(len(r), -1).all(1) & good
        if not fin.any():
            continue
        e = T.err_of(k, o, r.astype(LD))
        # a root of exactly zero may come out as any number negligible next to the others
        floor = LD(0) if k in ("b", "i") else 1e-3 * np.finfo(o.dtype if o.dtype.kind == "f" else np.float64).eps * np.max(np.abs(ints_size(ints)))
        mon.judge("integers", e[fin], 2 * tol[fin] + floor, {**{q: v[fin] for q, v in ints.items()}, "call": repr(w0)[:300], "got": o[fin], "float": r[fin]}, fn.name)


def ints_size(ints):
    return [float(np.max(np.abs(v))) for v in ints.values()]


def gravity(mon, env, adx):
    import jax
    import jax.numpy as jnp

    rng, F = env.rng, env.dtype
    g = adx.gravity
    fields = {"point_mass_grav": None, "j2_acc": "J2", "j3_acc": "J3", "j4_acc": "J4"}
    for nm, key in fields.items():
        f = getattr(g, nm)
        deg = 0 if key is None else int(key[1])
        for i in range(env.n(16, 120)):
            x = rng.integers(-5, 6, 6)
            x[rng.integers(3)] = 3
            A = {"mu": int(rng.integers(1, 9))}
            if key:
                A[key] = int(rng.integers(-4, 5))
                A["R_eq"] = int(rng.integers(1, 3))
            if i % 2:  # values that single precision cannot hold, as Python numbers or in the working precision
                A = {k: float(F(v + rng.uniform(-0.4, 0.4))) if v else 0.3 for k, v in A.items()}
                types_ = [float, lambda v: jnp.asarray(v, F), lambda v: np.asarray(v, F), F]
            else:
                types_ = [int, float, np.float32, lambda v: jnp.asarray(v), lambda v: np.asarray(v, F)]
            B = {k: types_[rng.integers(len(types_))](v) for k, v in A.items()}
            X = [x, x.astype(np.float32), x.astype(F), jnp.asarray(x), jnp.asarray(x, F)][rng.integers(5)]
            t = [0, 0.0, 1, jnp.asarray(0.5)][rng.integers(4)]
            w0 = dict(function=nm, x=x, args={k: f"{type(v).__name__} {v}" for k, v in B.items()}, state=str(getattr(X, "dtype", "")))
            ff = jax.jit(f) if i % 8 == 0 else f
            ok, out = mon.call("gravity", ff, t, X, B, witness=w0)
            if not ok:
                continue
            o = np.asarray(out)
            ref = O.zonal_acc(x[None, :3].astype(LD), LD(A["mu"]), LD(A[key]) if key else LD(1), LD(A.get("R_eq", 1)), deg)[0]
            single = (env.eps > 1e-10) or X.dtype == np.float32 or any(getattr(v, "dtype", None) == np.float32 for v in B.values()) or o.dtype == np.float32
            eps = float(np.finfo(np.float32).eps) if single else env.eps
            mon.require("gravity", o.dtype.kind == "f" and o.shape == (3,), dict(w0, got=str(o.dtype), shape=list(o.shape)), "type of the result")
            if not single:
                mon.require("gravity", o.dtype == np.float64, dict(w0, got=str(o.dtype)), "double precision in, double precision out")
            sc = np.abs(A["mu"]) * (abs(A[key]) * LD(A["R_eq"]) ** deg * 30 if key else LD(1)) / np.sqrt(LD((x[:3] ** 2).sum())) ** (deg + 2)
            if o.shape == (3,):
                mon.judge("gravity", [np.abs(o.astype(LD) - ref).max()], [64 * eps * sc], dict(x=x[None], mu=np.array([A["mu"]]), J=np.array([A.get(key, 0)])), nm)
        # all double precision: double precision result even when the tree mixes Python numbers
    f = adx.events.radius_islow
    for i in range(env.n(24, 120)):
        x = rng.integers(-5, 6, 6)
        x[0] = 3
        rm = int(rng.integers(1, 9))
        if i % 2:
            rm = float(F(rm + rng.uniform(-0.4, 0.4)))
        v = [rm, float(rm), np.float32(rm), jnp.asarray(rm), np.asarray(rm, F)][rng.integers(5)]
        if i % 2 and isinstance(v, np.float32):
            v = F(rm)
        X = [x, x.astype(np.float32), x.astype(F), jnp.asarray(x)][rng.integers(4)]
        w0 = dict(function="radius_islow", x=x, rmin=repr(v), state=str(X.dtype))
        ok, out = mon.call("gravity", f, 0.0, X, {"rmin": v}, witness=w0)
        if ok:
            ref = np.sqrt(LD((x[:3] ** 2).sum())) - rm
            eps = float(np.finfo(np.float32).eps) if np.float32 in (np.asarray(out).dtype, X.dtype, getattr(v, "dtype", None)) else env.eps
            mon.judge("gravity", [abs(LD(np.asarray(out)) - ref)], [8 * eps * (abs(ref) + rm)], dict(x=x[None], rmin=np.array([rm])), "radius_islow")
            if env.x64 and X.dtype != np.float32 and not isinstance(v, np.float32):
                mon.require("gravity", np.asarray(out).dtype == np.float64, dict(w0, got=str(np.asarray(out).dtype)), "double precision in, double precision out")


def propagators(mon, env, adx):
    import diffrax
    import jax
    import jax.numpy as jnp

    rng, F = env.rng, env.dtype
    P, g = adx.prop, adx.gravity

    def field(t, x, args):
        return jnp.concatenate([x[3:], g.point_mass_grav(t, x, args)])

    term = diffrax.ODETerm(field)
    loose, tight = (diffrax.PIDController(rtol=q, atol=q) for q in (1e-6, 1e-10))
    modes = {
        "to_final": lambda od, x, t, pid: P.to_final(od, x, t, stepsize_controller=pid),
        "adaptive_steps": lambda od, x, t, pid: P.adaptive_steps(od, x, t, max_steps=512, stepsize_controller=pid),
        "custom_steps": lambda od, x, t, pid: P.custom_steps(od, x, t, np.asarray([1, 2]), stepsize_controller=pid),
        "fixed_steps": lambda od, x, t, pid: P.fixed_steps(od, x, t, 0.0078125),
    }
    base = np.array([1, 0, 0, 0, 1, 0])
    states = {"int": base, "single": base.astype(np.float32), "double": base.astype(np.float64), "jax": jnp.asarray(base, F), "jax-int": jnp.asarray(base)}
    finals = {"int": 2, "float": 2.0, "single": np.float32(2), "double": np.float64(2), "jax": jnp.asarray(2, F), "np-int": np.int64(2)}
    combos = [(a, b, m, k) for a in states for b in finals for m in modes for k in ("float", "int", "default")]
    rng.shuffle(combos)
    for a, b, m, k in combos[: env.n(16, 120)]:
        w0 = dict(mode=m, state=a, final=b, args=k)
        od = P.OrbDynx(terms=term) if k == "default" else P.OrbDynx(terms=term, args={"mu": 1 if k == "int" else 1.0})
        single = not env.x64 or a == "single" or b == "single"
        ok, s = mon.call("propagation", modes[m], od, states[a], finals[b], loose if single else tight, witness=w0)
        if not ok:
            continue
        ts, ys = np.asarray(s.ts), np.asarray(s.ys)
        fin = np.isfinite(ts)
        mon.require("propagation", ys.dtype.kind == "f" and ts.dtype.kind == "f", dict(w0, ts=str(ts.dtype), ys=str(ys.dtype)), "floating-point results")
        if env.x64 and a in ("double", "jax"):
            mon.require("propagation", ys.dtype == np.float64, dict(w0, ys=str(ys.dtype)), "double precision in, double precision out")
        if env.x64 and not single:
            mon.require("propagation", ys.dtype == np.float64 and ts.dtype == np.float64, dict(w0, ts=str(ts.dtype), ys=str(ys.dtype)), "double precision unless something is single")
        t = ts[fin].astype(float)
        e = np.abs(ys[fin] - np.stack([np.cos(t), np.sin(t), 0 * t, -np.sin(t), np.cos(t), 0 * t], 1)).max(1)
        mon.judge("propagation", e, np.full(len(t), 2e-4 if single else 1e-7), dict(t=t, y=ys[fin], **{q: v for q, v in w0.items()}), f"{m}:{a}:{b}:{k}")
        mon.require("propagation", abs(t[-1] - 2) < 1e-6, dict(w0, last=float(t[-1])), "reaches the final time")
