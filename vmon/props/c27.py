"""C27: the documented interface: names, argument names, argument order and default values.

Every function is called with its arguments by position, by keyword and with optional arguments
left out; each execution is judged against the reference evaluated at the documented default.
"""

import importlib
import itertools

import numpy as np

from .. import oracle as O, table as T
from ..common import judge_table

MU1 = {"mu": 1.0}
# documented defaults of the optional arguments
DEFAULTS = {
    **{n: MU1 for n in ("orb_period", "a_from_period", "semimajor_axis", "eccentricity_vector", "semiparameter", "mean_anomaly_elps",
                        "mean_anomaly_hypb", "sigma_fn", "prpr0", "prpv0", "pvpr0", "pvpv0", "rv2coe", "coe2rv", "pass_perigee",
                        "rp_islower_rmin", "kepler", "solve_kepler_uni")},
    "kepler_equ_elps": {"M": 0.0},
    "kepler_equ_hypb": {"N": 0.0},
    "kepler_equ_uni": {"alpha": 1.0, "r0": 1.0, "sigma0": 0.0, "deltat": 0.0, "mu": 1.0},
    "generalized_anomaly": {"deltat": 0.0, "mu": 1.0},
    "lagrange_F": {"r0_mag": 1.0},
    "lagrange_G": {"sigma0": 0.0, "r0_mag": 1.0, "mu": 1.0},
    "lagrange_Ft": {"r0_mag": 1.0, "mu": 1.0},
    "C_func": {"deltat": 3.14, "mu": 1.0},
    "dxdx0": {"deltat": 3.14, "mu": 1.0},
    "nmax_by_periapsis": {"rp_min": 0.97, "r1": 1.0, "r2": 1.0, "tof": np.pi, "mu": 1.0},
}

TOP = """kepler_equ_elps kepler_equ_hypb kepler_equ_uni generalized_anomaly mean_anomaly_elps mean_anomaly_hypb solve_kepler_elps
solve_kepler_hypb solve_kepler_uni dE dH orb_period a_from_period angular_momentum semimajor_axis eccentricity_vector semiparameter
mean_motion equ_of_orbit equ_of_orb_uvi radius_periapsis radius_apoapsis semipara_from_ae a_from_pe rv2coe coe2rv inclination
true_anomaly right_ascension argument_of_periapsis events gravity twobody utils prop""".split()
NAMES = {
    "": TOP,
    "twobody": """lagrange_F lagrange_G lagrange_Ft lagrange_Gt prpr0 prpv0 pvpr0 pvpv0 dxdx0 C_func sigma_fn ufunc0 ufunc1 ufunc2 ufunc3
ufunc4 ufunc5 nmax_by_periapsis is_short_way pass_perigee rp_islower_rmin""".split(),
    "gravity": "point_mass_grav j2_acc j3_acc j4_acc".split(),
    "events": ["radius_islow"],
    "utils": "rotmat3dx rotmat3dy rotmat3dz".split(),
    "prop": "kepler OrbDynx cowell_method custom_steps fixed_steps adaptive_steps to_final".split(),
}
DIFFEQ = "diffeqsolve ODETerm Event SaveAt SubSaveAt AbstractSolver Solution AbstractStepSizeController ConstantStepSize PIDController Tsit5".split()

def canonical(fn, inp, F):
    """The same kind of situation in units in which mu is one."""
    mu = O.ld(inp["mu"])
    s = np.sqrt(mu)
    out = {}
    for nm, k, (l, t) in fn.args:
        x = O.ld(inp[nm])
        f = s ** t
        out[nm] = (x * (f[:, None] if x.ndim == 2 else f)).astype(F)
    out["mu"] = np.ones(len(mu), F)
    return out


def situation(fn, rng, n, F, omit):
    inp = fn.make(rng, n, F)
    d = DEFAULTS.get(fn.name, {})
    if "mu" in omit:
        inp = canonical(fn, inp, F)
    for q in omit:
        inp[q] = np.full(n, d[q], F)
    if fn.name == "dxdx0" and "deltat" in omit:
        # a consistent arc of the default duration
        L = np.linalg.norm(inp["r0_vec"].astype(float), axis=1)
        mu = inp["mu"].astype(float)
        r0 = inp["r0_vec"] / L[:, None]
        v0 = inp["v0_vec"] * np.sqrt(L / mu)[:, None]
        if "mu" not in omit:
            mu = rng.uniform(0.5, 2, n)
            v0 = v0 * np.sqrt(mu)[:, None]
        else:
            mu = np.ones(n)
        r0, v0, mu = r0.astype(F), v0.astype(F), mu.astype(F)
        r, v, _ = O.propagate(O.ld(r0), O.ld(v0), O.ld(inp["deltat"]), O.ld(mu))
        inp.update(r0_vec=r0, v0_vec=v0, mu=mu, r_vec=r.astype(F), v_vec=v.astype(F))
    return inp


def run(mon, env, adx):
    import jax

    rng, F = env.rng, env.dtype
    if env.part == 0:
        names(mon, adx)
    if env.part == 1:
        solver_defaults(mon, env, adx)
        fields(mon, env, adx)
    heavy = ("kepler", "dxdx0")
    for i, (nm, fn) in enumerate(T.TABLE.items()):
        if (i % 2) != env.part:
            continue
        d = DEFAULTS.get(nm, {})
        f0 = fn.get(adx)
        n = env.n(24, 200)
        subsets = [()] + [s for k in range(1, len(d) + 1) for s in itertools.combinations(d, k)]
        if len(subsets) > 6 and not env.thorough:
            pick = rng.choice(np.arange(1, len(subsets) - 1), 4, replace=False)
            subsets = [()] + [subsets[j] for j in pick] + [subsets[-1]]
        for omit in subsets:
            given = [q for q in fn.names if q not in omit]
            forms = {"keyword": 0, "position": len(list(itertools.takewhile(lambda q: q not in omit, fn.names)))}
            if len(given) > 1:
                forms["mixed"] = int(rng.integers(1, forms["position"] + 1)) if forms["position"] else 0
            if not env.thorough and omit and nm in heavy:
                forms = {"keyword": 0}
            for form, npos in forms.items():
                inp = situation(fn, rng, n, F, omit)
                pos, kws = fn.names[:npos], [q for q in given if q not in fn.names[:npos]]
                rng.shuffle(kws)
                monitor = "defaults" if omit else "arguments"
                w = dict(function=nm, position=pos, keyword=kws, omitted=list(omit))
                cols = {q: (inp[q][:, None] if q in fn.col and fn.style == "ew" else inp[q]) for q in given}

                def call(c, pos=tuple(pos), kws=tuple(kws)):
                    return f0(*[c[q] for q in pos], **{q: c[q] for q in kws})

                g = call if fn.style == "ew" else jax.jit(jax.vmap(call))
                ok, out = mon.call(monitor, g, cols, witness=w)
                if not ok:
                    continue
                try:
                    outs = fn.norm_out(out)
                except Exception as ex:  # noqa: BLE001
                    mon.violate(monitor, f"unusable result: {ex}", w)
                    continue
                outs = [np.broadcast_to(o, (n,) + o.shape[1:]) if o.ndim and o.shape[0] == 1 else (np.broadcast_to(o, (n,)) if o.ndim == 0 else o) for o in outs]
                judge_table(mon, env, monitor, fn, inp, outs, label=f"{nm}:{form}:{'+'.join(omit)}")


def names(mon, adx):
    import inspect

    import diffrax

    for sub, want in NAMES.items():
        modname = "astrodynx" + ("." + sub if sub else "")
        ok, m = mon.call("names", lambda modname=modname: _Box(importlib.import_module(modname)), witness=dict(module=modname))
        if not ok:
            continue
        m = m.value
        space = {}
        exec(f"from {modname} import *", space)  # noqa: S102
        for nm in want:
            obj = getattr(m, nm, None)
            mon.require("names", obj is not None, dict(module=modname, name=nm), "documented name is missing", sub)
            mon.require("names", space.get(nm) is obj, dict(module=modname, name=nm), "star import gives the same object", sub)
            if sub:
                mon.require("names", getattr(getattr(adx, sub), nm, None) is obj, dict(module=modname, name=nm), "one object per name", sub)
            if nm not in NAMES:
                mon.require("names", callable(obj), dict(module=modname, name=nm), "callable", sub)
                mon.require("names", bool(inspect.getdoc(obj)), dict(module=modname, name=nm), "documented", sub)
    D = importlib.import_module("astrodynx.diffeq")
    for nm in DIFFEQ:
        mon.require("names", getattr(D, nm, None) is getattr(diffrax, nm), dict(module="diffeq", name=nm), "is the solver library's own object", "diffeq")
    for nm, fn in T.TABLE.items():
        ps = list(inspect.signature(fn.get(adx)).parameters)
        mon.require("names", ps[: len(fn.names)] == fn.names, dict(function=nm, documented=fn.names, found=ps), "argument names and order", "signature")
    for nm, want in {
        "kepler": ["ts", "r0_vec", "v0_vec", "mu"],
        "cowell_method": ["orbdyn", "x0", "t1", "saveat", "dt0", "max_steps", "solver", "stepsize_controller"],
        "fixed_steps": ["orbdyn", "x0", "t1", "dt", "max_steps", "solver"],
        "adaptive_steps": ["orbdyn", "x0", "t1", "max_steps", "solver", "stepsize_controller"],
        "custom_steps": ["orbdyn", "x0", "t1", "ts", "solver", "stepsize_controller"],
        "to_final": ["orbdyn", "x0", "t1", "solver", "stepsize_controller"],
        "OrbDynx": ["terms", "args", "event"],
    }.items():
        ps = list(inspect.signature(getattr(adx.prop, nm)).parameters)
        mon.require("names", ps[: len(want)] == want, dict(function=nm, documented=want, found=ps), "argument names and order", "signature")
    mon.require("names", isinstance(adx.__version__, str) and adx.__version__ == adx.version and isinstance(adx.version_tuple, tuple), {}, "version information", "version")


class _Box:
    def __init__(self, value):
        self.value = value


def solver_defaults(mon, env, adx):
    """tol and max_iter by position, by keyword and left out."""
    import jax

    rng, F = env.rng, env.dtype
    for nm, budget in (("solve_kepler_elps", 20), ("solve_kepler_hypb", 50), ("solve_kepler_uni", 50)):
        fn = T.TABLE[nm]
        f0 = fn.get(adx)
        n = env.n(32, 300)
        inp = fn.make(rng, n, F)
        a = [inp[q] for q in fn.names]
        forms = {
            "omitted": lambda *a: f0(*a),
            "tol": lambda *a: f0(*a, tol=1e-6),
            "max_iter": lambda *a: f0(*a, max_iter=budget),
            "both": lambda *a: f0(*a, max_iter=budget, tol=1e-6),
            "position": lambda *a: f0(*a, 1e-6, budget),
        }
        for form, f in forms.items():
            ok, out = mon.call("solver-defaults", jax.jit(jax.vmap(f)), *a, witness=dict(function=nm, form=form))
            if ok:
                judge_table(mon, env, "solver-defaults", fn, inp, fn.norm_out(out), label=f"{nm}:{form}")
        # a plain Python call
        for i in range(env.n(3, 20)):
            args = [float(inp[q][i]) for q in fn.names]
            ok, out = mon.call("solver-defaults", lambda: f0(*args, 1e-6, budget), witness=dict(function=nm, form="python"))
            if ok:
                one = {q: inp[q][i : i + 1] for q in fn.names}
                judge_table(mon, env, "solver-defaults", fn, one, [np.asarray(out).reshape(1)], label=f"{nm}:python")


def fields(mon, env, adx):
    """Accelerations, events and propagators: keyword calls and defaults."""
    import diffrax
    import jax.numpy as jnp

    rng, F = env.rng, env.dtype
    G, E, P = adx.gravity, adx.events, adx.prop
    full = {"mu": 1.0, "J2": 0.0, "J3": 0.0, "J4": 0.0, "R_eq": 1.0}
    for nm, jn in (("point_mass_grav", None), ("j2_acc", "J2"), ("j3_acc", "J3"), ("j4_acc", "J4")):
        f = getattr(G, nm)
        for rep in range(env.n(4, 40)):
            x = rng.normal(size=6).astype(F)
            A = {"mu": F(rng.uniform(0.5, 2)), "R_eq": F(rng.uniform(0.5, 2)), **{k: F(rng.uniform(0.01, 1)) for k in ("J2", "J3", "J4")}}
            forms = {
                "position": (lambda: f(0.0, x, A), A),
                "keyword": (lambda: f(args=A, x=x, t=0.0), A),
                "only-needed": (lambda: f(0.0, x, {k: A[k] for k in (("mu",) if jn is None else ("mu", jn, "R_eq"))}), A),
                "default": (lambda: f(0.0, x), full),
                "default-keyword": (lambda: f(x=x, t=1.0), full),
            }
            for form, (call, B) in forms.items():
                ok, out = mon.call("fields", call, witness=dict(function=nm, form=form, x=x))
                if not ok:
                    continue
                xl = O.ld(x[None, :3])
                ref = O.zonal_acc(xl, LDs(B["mu"]), LDs(B[jn]) if jn else LDs(0), LDs(B["R_eq"]), int(jn[1]) if jn else 0)
                o = np.asarray(out)
                if not mon.require("fields", o.shape == (3,), dict(function=nm, form=form, shape=list(o.shape)), "shape of the result"):
                    continue
                r = float(np.linalg.norm(x[:3]))
                size = float(B["mu"]) / r**2 * (1 if jn is None else float(B[jn]) * (float(B["R_eq"]) / r) ** int(jn[1]))
                mon.judge("fields", [np.abs(o.astype(np.longdouble) - ref[0]).max()], [200 * env.eps * size * 10], dict(x=x[None], function=nm, form=form), f"{nm}:{form}")
    for rep in range(env.n(4, 40)):
        x = rng.normal(size=6).astype(F)
        rmin = F(rng.uniform(0, 2))
        r = float(np.sqrt((x[:3].astype(float) ** 2).sum()))
        for form, call, want in (
            ("position", lambda: E.radius_islow(0.0, x, {"rmin": rmin}), r - float(rmin)),
            ("keyword", lambda: E.radius_islow(t=0.0, x=x, args={"rmin": rmin}), r - float(rmin)),
            ("extra", lambda: E.radius_islow(0.0, x, {"rmin": rmin, "mu": 3.0}, terms=None, solver=None, controller=None), r - float(rmin)),
            ("as-y", lambda: E.radius_islow(0.0, y=x, args={"rmin": rmin}, terms=None), r - float(rmin)),
            ("default", lambda: E.radius_islow(0.0, x), r),
        ):
            ok, out = mon.call("fields", call, witness=dict(function="radius_islow", form=form, x=x))
            if ok:
                mon.judge("fields", [abs(float(np.asarray(out)) - want)], [16 * env.eps * (r + 2)], dict(x=x[None], form=form), f"radius_islow:{form}")

    def field(t, y, args):
        return jnp.concatenate([y[3:], G.point_mass_grav(t, y, args)])

    tm = diffrax.ODETerm(field)
    # default dynamics arguments: mu = 1 and no event
    od = P.OrbDynx(tm)
    mon.require("propagators", dict(od.args) == {"mu": 1.0} and od.event is None and od.terms is tm, dict(args=repr(od.args)), "default dynamics")
    mon.require("propagators", P.OrbDynx(terms=tm, args={"a": 1}, event=3)[:] == (tm, {"a": 1}, 3), {}, "fields in the documented order")
    mon.require("propagators", P.OrbDynx(tm, {"a": 1}, 3) == P.OrbDynx(event=3, args={"a": 1}, terms=tm), {}, "fields by name")
    pid = diffrax.PIDController(rtol=1e-8, atol=1e-8)
    sv = diffrax.Tsit5()
    for rep in range(env.n(1, 4)):
        x = np.array([1, 0, 0, 0, rng.uniform(0.9, 1.1), rng.uniform(-0.2, 0.2)], F)
        t1 = F(rng.uniform(1, 2))
        ts = np.array([0.1, 0.5, 1.0], F)
        at = diffrax.SaveAt(t0=True, t1=True)
        pairs = {
            "cowell_method": (lambda: P.cowell_method(od, x, t1, at), lambda: P.cowell_method(stepsize_controller=pid, solver=sv, max_steps=4096, dt0=None, saveat=at, t1=t1, x0=x, orbdyn=od), lambda: P.cowell_method(od, x, t1, at, None, 4096, sv, pid)),
            "fixed_steps": (lambda: P.fixed_steps(od, x, t1, 0.05), lambda: P.fixed_steps(dt=0.05, t1=t1, x0=x, orbdyn=od, solver=sv, max_steps=4096), lambda: P.fixed_steps(od, x, t1, 0.05, 4096, sv)),
            "adaptive_steps": (lambda: P.adaptive_steps(od, x, t1), lambda: P.adaptive_steps(stepsize_controller=pid, solver=sv, max_steps=4096, t1=t1, x0=x, orbdyn=od), lambda: P.adaptive_steps(od, x, t1, 4096, sv, pid)),
            "custom_steps": (lambda: P.custom_steps(od, x, t1, ts), lambda: P.custom_steps(stepsize_controller=pid, solver=sv, ts=ts, t1=t1, x0=x, orbdyn=od), lambda: P.custom_steps(od, x, t1, ts, sv, pid)),
            "to_final": (lambda: P.to_final(od, x, t1), lambda: P.to_final(stepsize_controller=pid, solver=sv, t1=t1, x0=x, orbdyn=od), lambda: P.to_final(od, x, t1, sv, pid)),
        }
        for nm, calls in pairs.items():
            got = []
            for form, c in zip(("short", "keyword", "position"), calls):
                ok, s = mon.call("propagators", c, witness=dict(mode=nm, form=form))
                if ok:
                    got.append((form, s))
            for form, s in got:
                okk = isinstance(s, diffrax.Solution) and s.ts is not None and s.ys is not None and "num_steps" in s.stats
                mon.require("propagators", okk, dict(mode=nm, form=form), "a Solution with ts, ys and stats")
            for form, s in got[1:]:
                a, b = got[0][1], s
                mon.require("propagators", np.shape(a.ts) == np.shape(b.ts) and np.shape(a.ys) == np.shape(b.ys) and int(a.stats["max_steps"] or -1) == int(b.stats["max_steps"] or -1), dict(mode=nm, form=form, shapes=[np.shape(a.ts), np.shape(b.ts)]), "same shape and step budget as the short form")
                fin = np.isfinite(np.asarray(a.ts))
                if np.shape(a.ts) == np.shape(b.ts):
                    e = np.abs(np.asarray(a.ys)[fin] - np.asarray(b.ys)[fin]).max(initial=0)
                    mon.judge("propagators", [e], [64 * env.eps], dict(mode=nm, form=form, x=x[None]), f"{nm}:{form}")


def LDs(x):
    return np.atleast_1d(np.asarray(x, np.longdouble))
