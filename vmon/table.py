"""Table of the public numeric functions: how to drive them, what they must return (longdouble
reference), the physical dimension and the geometric type of every argument and result.

kinds: 's' scalar, 'v' 3-vector, 'm' 3x3 matrix, 'M' 6x6 matrix, 'a' angle modulo 2 pi, 'b' boolean,
       'i' integer-valued (floor), 'V'/'A' scalar/angle returned with a trailing axis of length one,
       'K' 3-vector returned as one row per epoch.
dims:  (length exponent, time exponent).
style: 'ew' broadcasts element-wise (mu of vector functions has a trailing axis), 'sc' one event at
       a time (scalars / 3-vectors), driven through vmap for breadth.
"""

from dataclasses import dataclass, field

import numpy as np

from . import gen, oracle as O

LD = np.longdouble
MU = (3, -2)


@dataclass
class Fn:
    name: str
    args: list  # [(name, kind, dims)]
    outs: list  # [(kind, dims)]
    ref: object
    make: object
    style: str = "ew"
    col: tuple = ()  # args that take a trailing singleton axis in batches
    smooth: bool = True
    frame: str = "rot"  # 'rot': any rotation, 'z': rotations about z only, None: no vectors
    group: str = ""
    ulp: float = 64.0  # allowed error in units of eps * conditioning
    path: str = ""
    multi: bool = False  # returns a tuple
    border: object = None  # mask of undecidable events for discrete results
    blocks: bool = False  # returns a 6x6 matrix, judged as four 3x3 blocks
    scale_floor: object = None  # rounding of the terms a result is the difference of

    def get(self, adx):
        o = adx
        for p in self.path.split("."):
            o = getattr(o, p)
        return o

    @property
    def names(self):
        return [a[0] for a in self.args]

    def shape_args(self, inp):
        """Arguments as the batched call takes them."""
        out = []
        for nm in self.names:
            x = inp[nm]
            if nm in self.col:
                x = x[:, None]
            out.append(x)
        return out

    def row_args(self, inp, i):
        return [inp[nm][i] for nm in self.names]

    def norm_out(self, out):
        """Result of a batched call as a list of arrays with the event axis first."""
        outs = list(out) if self.multi else [out]
        if self.blocks:
            o = np.asarray(out)
            if o.shape[-2:] != (6, 6):
                raise ValueError(f"shape {o.shape}, expected (..., 6, 6)")
            outs = split_blocks(o)
        res = []
        for (k, _), o in zip(self.outs, outs):
            o = np.asarray(o)
            if k in ("V", "A") and o.ndim >= 1 and o.shape[-1] == 1:
                o = o[..., 0]
            if k == "K":
                o = o[..., 0, :]
            res.append(o)
        return res

    def batched(self, adx):
        """A callable over batched arguments (event axis first)."""
        import jax

        f = self.get(adx)
        if self.style == "ew":
            return f
        return jax.vmap(f)

    def refs(self, inp):
        r = self.ref(**{k: O.ld(inp[k]) for k in self.names})
        r = list(r) if isinstance(r, (list, tuple)) else [r]
        return r


def split_blocks(o):
    return [o[..., :3, :3], o[..., :3, 3:], o[..., 3:, :3], o[..., 3:, 3:]]


def err_of(kind, got, ref):
    """Per-event error (norm-wise for vectors/matrices)."""
    if kind in ("b", "i"):
        return (np.asarray(got).astype(LD) != np.asarray(ref).astype(LD)).astype(LD)
    g = np.asarray(got).astype(LD)
    d = g - ref
    if kind in ("a", "A"):
        with np.errstate(all="ignore"):
            d = d - 2 * O.PI * np.rint(d / (2 * O.PI))
    d = np.abs(d)
    while d.ndim > 1:
        d = d.max(axis=-1)
    return d


def size_of(kind, ref):
    if kind in ("b", "i"):
        return np.zeros(np.shape(ref)[0], LD)
    if kind in ("a", "A"):
        return np.full(np.shape(ref)[0], LD(6.3))
    d = np.abs(ref)
    while d.ndim > 1:
        d = d.max(axis=-1)
    return d


def conditioning(fn, inp, refs, rng, delta=1e-8):
    """First-order sensitivity of the reference to relative perturbations of the inputs, one
    component of one argument at a time (so that opposite sensitivities do not cancel), summed."""
    amps = [np.zeros(np.shape(r)[0], LD) for r in refs]
    signs = (1, -1) if any(k in ("b", "i") for k, _ in fn.outs) else (1,)
    for nm in fn.names:
        x = O.ld(inp[nm])
        if x.ndim > 1:
            # perturbations relative to the length of the vector, so that zeros move as well
            sc = np.sqrt(np.sum(x * x, axis=-1))
            comps = list(np.ndindex(*x.shape[1:]))
        else:
            comps = [()]
        for c in comps:
            for sg in signs:
                px = x.copy()
                if x.ndim > 1:
                    px[(slice(None), *c)] += sg * LD(delta) * sc[(slice(None), *c[:-1])]
                else:
                    px = x * (1 + sg * LD(delta))
                with np.errstate(all="ignore"):
                    rp = fn.refs({**inp, nm: px})
                for j, (k, _) in enumerate(fn.outs):
                    d = err_of(k, rp[j], refs[j])
                    amps[j] = amps[j] + (d if k in ("b", "i") else d / LD(delta))
    return amps


# scalars for which zero is an ordinary value, at which every function of the table is smooth
ZERO = {"sigma", "sigma0", "chi", "deltat", "ts", "E", "H", "M", "N", "U1", "U2", "U3", "U4", "U5", "F", "G", "Ft", "Gt", "C", "angle", "f", "true_anom", "raan", "argp", "incl", "alpha"}


def with_zeros(fn, inp, rng, n):
    """In some of the events, one scalar argument is exactly zero."""
    qs = [q for q in fn.names if q in ZERO]
    if not qs:
        return inp
    inp = dict(inp)
    hit = rng.random(n) < 0.15
    for q, pick in zip(qs, np.eye(len(qs), dtype=bool)[:, rng.integers(0, len(qs), n)]):
        inp[q] = np.where(pick & hit, 0, inp[q]).astype(inp[q].dtype)
    return inp


def free_values(fn, rng, n, dtype):
    """Arguments drawn independently of each other (the formulas hold for any values), some exactly
    zero; moderate magnitudes, so that no intermediate product leaves the single-precision range."""
    inp = fn.make(rng, n, dtype)
    keep = np.ones(n, bool)
    for q in fn.names:
        inp[q] = inp[q][rng.permutation(n)]
        if q in SIGNED:
            inp[q] = (inp[q] * rng.choice([-1.0, 1.0], n)).astype(dtype)
        x = np.abs(inp[q].astype(float)).reshape(n, -1).max(1)
        lim = 1e3 if dtype == np.float32 else 1e12
        keep &= (x < lim) & (x > 1 / lim)
    if "chi" in inp and "alpha" in inp:
        keep &= np.abs(inp["alpha"].astype(float)) * inp["chi"].astype(float) ** 2 < (100 if dtype == np.float32 else 1e4)
    inp = {q: v[keep] for q, v in inp.items()}
    return with_zeros(fn, inp, rng, int(keep.sum()))


ROUND = np.array([0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0])


def lattice_values(fn, rng, n, dtype):
    """Small round numbers: arguments that coincide with each other, with one, or with whole turns;
    vectors with equal, opposite and vanishing components, or equal to each other."""
    inp = fn.make(rng, n, dtype)
    vec = [q for q in fn.names if inp[q].ndim == 2]
    for q in fn.names:
        x = inp[q].astype(float)
        if x.ndim > 1:
            y = rng.integers(-2, 3, x.shape) * rng.choice([0.5, 1.0], n)[:, None]
            y[np.all(y == 0, axis=1)] = [1, 1, 1]
        elif q == "e":
            y = np.where(x < 1, rng.choice([0.25, 0.5, 0.75], n), rng.choice(ROUND[3:], n))
        else:
            sign = rng.choice([-1.0, 1.0], n) if q in SIGNED else np.where(x < 0, -1.0, 1.0)
            y = sign * rng.choice(ROUND, n)
        inp[q] = y.astype(dtype)
    if len(vec) > 1:
        for i in np.nonzero(rng.random(n) < 0.1)[0]:
            a, b = rng.permutation(len(vec))[:2]
            inp[vec[a]][i] = inp[vec[b]][i]
    ok = np.ones(n, bool)
    if fn.group == "path" and len(vec) > 1:
        ok = np.linalg.norm(np.cross(inp[vec[0]], inp[vec[1]]), axis=1) > 0
    if "r2" in vec:  # the end point lies in the plane of the motion
        c = rng.integers(-2, 3, (2, n, 1)).astype(dtype)
        inp["r2"] = c[0] * inp["r1"] + c[1] * inp["v1"]
        ok &= np.linalg.norm(np.cross(inp["r1"], inp["r2"]), axis=1) > 0  # (half turns have no short way)
    inp = {q: v[ok] for q, v in inp.items()}
    return with_zeros(fn, inp, rng, int(ok.sum()))


# functions whose arguments must belong to one orbit
CONSISTENT = {"dxdx0", "true_anomaly", "argument_of_periapsis"}
SIGNED = {"chi", "U1", "U3", "U5", "sigma", "sigma0", "deltat", "F", "G", "Ft", "Gt", "C", "M", "N", "E", "H", "f"}
# ------------------------------------------------------------------ input makers
def cast(d, dtype):
    return {k: np.asarray(v).astype(dtype) for k, v in d.items()}


def logu(rng, n, lo, hi, signed=False):
    x = 10.0 ** rng.uniform(lo, hi, n)
    return x * rng.choice([-1.0, 1.0], n) if signed else x


def mk_scales(rng, n, dtype=np.float32):
    lab, L, mu = gen.pick_units(rng, n, dtype == np.float32)
    return L * 10.0 ** rng.uniform(-0.5, 1, n), mu


ELL = ("circular", "near_circular", "low", "moderate", "high", "very_high")
HYP = ("hyperbolic", "very_hyperbolic")
BIG = ("canonical", "km", "si", "au_day", "au_year", "moon_km")  # length scale at least one
WIDE = ELL + HYP + ("near_parabolic_ell", "near_parabolic_hyp")


def mk_state(regimes=WIDE, units=None):
    def make(rng, n, dtype):
        o = gen.orbits(rng, n, dtype, e_regimes=regimes, units=units)
        return dict(pos_vec=o["r"], vel_vec=o["v"], mu=o["mu"])

    return make


def mk_arc(rng, n, dtype, regimes=WIDE, kinds=("tiny", "frac", "orbit", "multi"), units=None):
    """A Keplerian arc with all derived quantities (longdouble), plus dtype casts of the inputs."""
    o = gen.orbits(rng, n, dtype, e_regimes=regimes, units=units)
    tl, dt = gen.times(rng, o, dtype, kinds=kinds, many=30)
    r, v, q = O.propagate(o["r"], o["v"], dt, o["mu"])
    q = dict(q)
    u = O.Uall(q["chi"], q["alpha"], 5)
    q["U"] = u
    sig = O.dot(r, v) / np.sqrt(O.ld(o["mu"]))
    return o, tl, dt, r, v, q, sig


def arc_maker(fields, regimes=WIDE, kinds=("tiny", "frac", "orbit", "multi"), units=None):
    def make(rng, n, dtype):
        o, tl, dt, r, v, q, sig = mk_arc(rng, n, dtype, regimes, kinds, units)
        pool = dict(
            chi=q["chi"], alpha=q["alpha"], r0=q["r0"], sigma0=q["sigma0"], sigma=sig, deltat=dt, mu=o["mu"],
            U0=q["U"][0], U1=q["U"][1], U2=q["U"][2], U4=q["U"][4], U5=q["U"][5], r0_mag=q["r0"], r_mag=q["r"],
            r_vec=r, v_vec=v, r0_vec=o["r"], v0_vec=o["v"], F=q["F"], G=q["G"], Ft=q["Ft"], Gt=q["Gt"],
        )
        smu = np.sqrt(O.ld(o["mu"]))
        pool["C"] = (3 * pool["U5"] - q["chi"] * pool["U4"] - smu * dt * pool["U2"]) / smu
        return cast({k: pool[k] for k in fields}, dtype)

    return make


# ------------------------------------------------------------------ references
def _semimajor(r_mag, v_mag, mu):
    return 1 / (2 / r_mag - v_mag**2 / mu)


def ref_node(h):
    return np.stack([-h[..., 1], h[..., 0], np.zeros_like(h[..., 0])], -1)


def wrap2pi(x):
    return np.where(x < 0, x + 2 * O.PI, x)


def ang_unsigned(a, b):
    return np.arctan2(O.norm(np.cross(a, b)), O.dot(a, b))


def ang_signed(a, b, h):
    return wrap2pi(np.arctan2(O.dot(np.cross(a, b), h) / O.norm(h), O.dot(a, b)))


def ref_rv2coe(pos_vec, vel_vec, mu):
    h = np.cross(pos_vec, vel_vec)
    hm = O.norm(h)
    p = hm**2 / mu
    ev = O.ecc_vec(pos_vec, vel_vec, mu)
    e = O.norm(ev)
    i = np.arctan2(np.hypot(h[..., 0], h[..., 1]), h[..., 2])
    N = ref_node(h)
    z = np.all(N == 0, axis=-1, keepdims=True)
    N = np.where(z, np.array([1, 0, 0], LD), N)
    raan = wrap2pi(np.arctan2(N[..., 1], N[..., 0]))
    argp = ang_signed(N, ev, h)
    f = ang_signed(ev, pos_vec, h)
    return p, e, i, raan, argp, f


def ref_short(r1, v1, r2):
    return (O.dot(np.cross(r1, v1), np.cross(r1, r2)) > 0)


def ref_pass(r1, v1, r2, mu):
    """Geometric: going from r1 in the direction of motion (less than one turn), is f = 0 crossed?"""
    h = np.cross(r1, v1)
    ev = O.ecc_vec(r1, v1, mu)
    f1 = ang_signed(ev, r1, h)
    f2 = ang_signed(ev, r2, h)
    return ~(f2 > f1)


def near_apse(inp, eps):
    """Start or end point indistinguishable from periapsis: 'passing' it is not decidable."""
    h = np.cross(inp["r1"], inp["v1"])
    ev = O.ecc_vec(inp["r1"], inp["v1"], inp["mu"])
    m = 1000 * eps / O.norm(ev)
    f1, f2 = ang_unsigned(ev, inp["r1"]), ang_unsigned(ev, inp["r2"])
    return (f1 < m) | (f2 < m)


def ref_stm(r_vec, v_vec, r0_vec, v0_vec, deltat, mu):
    """The closed-form state transition matrix from both end states (checked against the
    differentiated flow in oracle.stm_exact by C13)."""
    sm = np.sqrt(mu)
    r0, r = O.norm(r0_vec), O.norm(r_vec)
    alpha = O.alpha_of(r0_vec, v0_vec, mu)
    s0, s1 = O.dot(r0_vec, v0_vec) / sm, O.dot(r_vec, v_vec) / sm
    chi = alpha * sm * deltat + s1 - s0
    u = O.Uall(chi, alpha, 5)
    C = (3 * u[5] - chi * u[4] - sm * deltat * u[2]) / sm
    F, G = 1 - u[2] / r0, (r0 * u[1] + s0 * u[2]) / sm
    Ft, Gt = -sm / (r * r0) * u[1], 1 - u[2] / r
    a = (r_vec, v_vec, r0_vec, v0_vec)
    return [ref_prpr0(*a, F, C, mu), ref_prpv0(*a, F, G, C, mu), ref_pvpr0(*a, Ft, C, mu), ref_pvpv0(*a, F, Gt, C, mu)]


def _o(a, b):
    return a[:, :, None] * b[:, None, :]


def _s(x):
    return x[:, None, None]


I3 = np.eye(3, dtype=LD)[None]


def ref_prpr0(r_vec, v_vec, r0_vec, v0_vec, F, C, mu):
    r, r0 = O.norm(r_vec), O.norm(r0_vec)
    dv = v_vec - v0_vec
    return _s(r / mu) * _o(dv, dv) + _s(1 / r0**3) * (_s(r0 * (1 - F)) * _o(r_vec, r0_vec) + _s(C) * _o(v_vec, r0_vec)) + _s(F) * I3


def ref_prpv0(r_vec, v_vec, r0_vec, v0_vec, F, G, C, mu):
    r0 = O.norm(r0_vec)
    dv = v_vec - v0_vec
    return _s(r0 / mu * (1 - F)) * (_o(r_vec - r0_vec, v0_vec) - _o(dv, r0_vec)) + _s(C / mu) * _o(v_vec, v0_vec) + _s(G) * I3


def ref_pvpr0(r_vec, v_vec, r0_vec, v0_vec, Ft, C, mu):
    r, r0 = O.norm(r_vec), O.norm(r0_vec)
    dv = v_vec - v0_vec
    return (
        -_s(1 / r0**2) * _o(dv, r0_vec)
        - _s(1 / r**2) * _o(r_vec, dv)
        + _s(Ft) * (I3 - _s(1 / r**2) * _o(r_vec, r_vec) + _s(1 / (mu * r)) * np.matmul(_o(r_vec, v_vec) - _o(v_vec, r_vec), _o(r_vec, dv)))
        - _s(mu * C / (r**3 * r0**3)) * _o(r_vec, r0_vec)
    )


def ref_pvpv0(r_vec, v_vec, r0_vec, v0_vec, F, Gt, C, mu):
    r, r0 = O.norm(r_vec), O.norm(r0_vec)
    dv = v_vec - v0_vec
    return _s(r0 / mu) * _o(dv, dv) + _s(1 / r**3) * (_s(r0 * (1 - F)) * _o(r_vec, r0_vec) - _s(C) * _o(r_vec, v0_vec)) + _s(Gt) * I3


# ------------------------------------------------------------------ table
TABLE = {}


def add(name, args, outs, ref, make, **kw):
    path = kw.pop("path", name)
    TABLE[name] = Fn(name=name, args=args, outs=outs, ref=ref, make=make, path=path, **kw)


S, V = "s", "v"
L1, T1, Z = (1, 0), (0, 1), (0, 0)
SQ = (0.5, 0)


def mk_a(sign=1):
    def make(rng, n, dtype):
        L, mu = mk_scales(rng, n, dtype)
        x = np.where(rng.random(n) < 0.7, logu(rng, n, -3, 2, True), logu(rng, n, -9, 6, True))
        x = np.where(rng.random(n) < 0.03, 0.0, x)
        return cast(dict(a=sign * L, mu=mu, deltat=np.sqrt(L**3 / mu) * x), dtype)

    return make


def mk_period(rng, n, dtype):
    L, mu = mk_scales(rng, n, dtype)
    P = 2 * np.pi * np.sqrt(L**3 / mu)
    return cast(dict(orbperiod=P, P=P, mu=mu), dtype)


def mk_rvmag(rng, n, dtype):
    o = gen.orbits(rng, n, np.float64, e_regimes=ELL + HYP)
    return cast(dict(r_mag=np.linalg.norm(o["r"], axis=1), v_mag=np.linalg.norm(o["v"], axis=1), mu=o["mu"]), dtype)


def mk_pe(regimes, f=False):
    def make(rng, n, dtype):
        _, e = gen.pick_e(rng, n, regimes, dtype == np.float32)
        L, mu = mk_scales(rng, n, dtype)
        p = L * (1 + e)
        fm = np.where(e >= 1, np.arccos(-1 / np.maximum(e, 1)) * 0.97, np.pi)
        f_ = rng.uniform(-1, 1, n) * fm
        wrap = rng.random(n) < 0.3
        f_ = np.where(wrap, f_ + 2 * np.pi * rng.integers(-3, 4, n) * rng.choice([1, 1, 40], n), f_)
        with np.errstate(divide="ignore"):
            a = np.where(e == 1, np.inf, p / np.where(e == 1, 1, 1 - e**2))
        return cast(dict(p=p, e=e, f=f_, a=a, mu=mu, h_mag=np.sqrt(p * mu)), dtype)

    return make


g = "integrals"
add("orb_period", [("a", S, L1), ("mu", S, MU)], [(S, T1)], lambda a, mu: 2 * O.PI * np.sqrt(a**3 / mu), mk_a(), group=g)
add("a_from_period", [("orbperiod", S, T1), ("mu", S, MU)], [(S, L1)], lambda orbperiod, mu: np.cbrt(orbperiod**2 * mu / 4 / O.PI**2), mk_period, group=g)
add("angular_momentum", [("pos_vec", V, L1), ("vel_vec", V, (1, -1))], [(V, (2, -1))], lambda pos_vec, vel_vec: np.cross(pos_vec, vel_vec), mk_state(), group=g)
add("semimajor_axis", [("r_mag", S, L1), ("v_mag", S, (1, -1)), ("mu", S, MU)], [(S, L1)], _semimajor, mk_rvmag, group=g)
add("eccentricity_vector", [("pos_vec", V, L1), ("vel_vec", V, (1, -1)), ("mu", S, MU)], [(V, Z)], lambda pos_vec, vel_vec, mu: O.ecc_vec(pos_vec, vel_vec, mu), mk_state(), col=("mu",), group=g)
add("semiparameter", [("h_mag", S, (2, -1)), ("mu", S, MU)], [(S, L1)], lambda h_mag, mu: h_mag**2 / mu, mk_pe(WIDE), group=g)
add("mean_motion", [("P", S, T1)], [(S, (0, -1))], lambda P: 2 * O.PI / P, mk_period, group=g)
add("equ_of_orbit", [("p", S, L1), ("e", S, Z), ("f", S, Z)], [(S, L1)], lambda p, e, f: p / (1 + e * np.cos(f)), mk_pe(WIDE), group=g)
add("equ_of_orb_uvi", [("U0", S, Z), ("U1", S, SQ), ("U2", S, L1), ("r0", S, L1), ("sigma0", S, SQ)], [(S, L1)], lambda U0, U1, U2, r0, sigma0: r0 * U0 + sigma0 * U1 + U2, arc_maker(["U0", "U1", "U2", "r0", "sigma0"]), group=g)
add("radius_periapsis", [("p", S, L1), ("e", S, Z)], [(S, L1)], lambda p, e: p / (1 + e), mk_pe(WIDE), group=g)
add("radius_apoapsis", [("p", S, L1), ("e", S, Z)], [(S, L1)], lambda p, e: p / (1 - e), mk_pe(ELL + HYP), group=g)
add("semipara_from_ae", [("a", S, L1), ("e", S, Z)], [(S, L1)], lambda a, e: a * (1 - e**2), mk_pe(ELL + HYP), group=g)
add("a_from_pe", [("p", S, L1), ("e", S, Z)], [(S, L1)], lambda p, e: p / (1 - e**2), mk_pe(ELL + HYP), group=g)


def special(rng, x, unit):
    """Some events at exact multiples of a quarter of `unit`, zero included."""
    return np.where(rng.random(len(x)) < 0.08, rng.integers(-8, 9, len(x)) * (unit / 4), x)


def mk_E(rng, n, dtype):
    _, e = gen.pick_e(rng, n, ELL, dtype == np.float32)
    E = np.where(rng.random(n) < 0.5, rng.uniform(-np.pi, np.pi, n), logu(rng, n, -4, 2, True))
    E = np.where(rng.random(n) < 0.2, logu(rng, n, -10, 5, True), E)
    E = special(rng, E, np.pi)
    M = np.where(rng.random(n) < 0.5, E - e * np.sin(E), logu(rng, n, -4, 2, True))
    M = np.where(rng.random(n) < 0.2, logu(rng, n, -10, 5, True), M)
    return cast(dict(E=E, e=e, M=M), dtype)


def mk_H(rng, n, dtype):
    _, e = gen.pick_e(rng, n, HYP + ("near_parabolic_hyp",), dtype == np.float32)
    H = rng.uniform(-6, 6, n)
    big = 70 if dtype == np.float32 else 600
    H = np.where(rng.random(n) < 0.25, np.minimum(10.0 ** rng.uniform(-9, np.log10(big), n), big) * rng.choice([-1.0, 1.0], n), H)
    H = special(rng, H, 1.0)
    N = np.where(rng.random(n) < 0.5, e * np.sinh(H) - H, logu(rng, n, -4, 3, True))
    N = np.where(rng.random(n) < 0.2, logu(rng, n, -10, 12, True), N)
    return cast(dict(H=H, e=e, N=N), dtype)


g = "kepeq"
add("kepler_equ_elps", [("E", S, Z), ("e", S, Z), ("M", S, Z)], [(S, Z)], lambda E, e, M: E - e * np.sin(E) - M, mk_E, group=g)
add("dE", [("E", S, Z), ("e", S, Z)], [(S, Z)], lambda E, e: 1 - e * np.cos(E), mk_E, group=g)
add("kepler_equ_hypb", [("H", S, Z), ("e", S, Z), ("N", S, Z)], [(S, Z)], lambda H, e, N: e * np.sinh(H) - H - N, mk_H, group=g)
add("dH", [("H", S, Z), ("e", S, Z)], [(S, Z)], lambda H, e: e * np.cosh(H) - 1, mk_H, group=g)
add("mean_anomaly_elps", [("a", S, L1), ("deltat", S, T1), ("mu", S, MU)], [(S, Z)], lambda a, deltat, mu: np.sqrt(mu / a**3) * deltat, mk_a(), group=g)
add("mean_anomaly_hypb", [("a", S, L1), ("deltat", S, T1), ("mu", S, MU)], [(S, Z)], lambda a, deltat, mu: np.sqrt(mu / -(a**3)) * deltat, mk_a(-1), group=g)


def ref_kepuni(chi, alpha, r0, sigma0, deltat, mu):
    u = O.Uall(chi, alpha, 3)
    return r0 * u[1] + sigma0 * u[2] + u[3] - np.sqrt(mu) * deltat


add("kepler_equ_uni", [("chi", S, SQ), ("alpha", S, (-1, 0)), ("r0", S, L1), ("sigma0", S, SQ), ("deltat", S, T1), ("mu", S, MU)], [(S, (1.5, 0))], ref_kepuni, arc_maker(["chi", "alpha", "r0", "sigma0", "deltat", "mu"]), style="sc", group=g)
add("generalized_anomaly", [("alpha", S, (-1, 0)), ("sigma", S, SQ), ("sigma0", S, SQ), ("deltat", S, T1), ("mu", S, MU)], [(S, SQ)], lambda alpha, sigma, sigma0, deltat, mu: alpha * np.sqrt(mu) * deltat + sigma - sigma0, arc_maker(["alpha", "sigma", "sigma0", "deltat", "mu"]), group=g)


def mk_Me(rng, n, dtype):
    f32 = dtype == np.float32
    _, e = gen.pick_e(rng, n, ELL + ("near_parabolic_ell",), f32)
    M = np.where(rng.random(n) < 0.5, rng.uniform(-4, 4, n), logu(rng, n, -6, 2 if f32 else 3, True))
    return cast(dict(M=M, e=e), dtype)


def mk_Ne(rng, n, dtype):
    f32 = dtype == np.float32
    _, e = gen.pick_e(rng, n, HYP + ("near_parabolic_hyp",), f32)
    return cast(dict(N=logu(rng, n, -2, 4, True), e=e), dtype)


g = "solvers"
add("solve_kepler_elps", [("M", S, Z), ("e", S, Z)], [(S, Z)], lambda M, e: O.kepler_E(M, e), mk_Me, style="sc", group=g)
add("solve_kepler_hypb", [("N", S, Z), ("e", S, Z)], [(S, Z)], lambda N, e: O.kepler_H(N, e), mk_Ne, style="sc", group=g)
add("solve_kepler_uni", [("deltat", S, T1), ("alpha", S, (-1, 0)), ("r0", S, L1), ("sigma0", S, SQ), ("mu", S, MU)], [(S, SQ)], lambda deltat, alpha, r0, sigma0, mu: O.kepler_chi(deltat, alpha, r0, sigma0, mu), arc_maker(["deltat", "alpha", "r0", "sigma0", "mu"], units=BIG), style="sc", group=g, ulp=200)


def mk_chi(rng, n, dtype):
    """chi and alpha over every sign and size of alpha chi^2, including exact zeros."""
    L = 10.0 ** np.where(rng.random(n) < 0.7, rng.uniform(-2, 3, n), rng.uniform(-6, 9, n))
    kind = rng.integers(0, 6, n)
    psi = np.where(kind == 0, 0.0, 10.0 ** rng.uniform(-12, 0, n))
    psi = np.where(kind == 2, 10.0 ** rng.uniform(-1, 1, n), psi)
    psi = np.where(kind == 3, rng.uniform(0.5, 2.0, n), psi)
    psi = np.where(kind == 4, 10.0 ** rng.uniform(1, 3.5, n), psi)
    sg = rng.choice([-1.0, 1.0], n)
    # many revolutions; far out on a hyperbola
    many = rng.random(n) < 0.15
    psi = np.where(many & (sg > 0), 10.0 ** rng.uniform(3, 4 if dtype == np.float32 else 9, n), psi)
    far = 45.0 if dtype == np.float32 else 250.0
    psi = np.where((sg < 0) & (psi > 400), rng.uniform(10, 400, n), psi)
    psi = np.where(many & (sg < 0), rng.uniform(0, far, n) ** 2, psi) * sg
    chi = np.sqrt(L) * rng.choice([-1.0, 1.0], n)
    alpha = psi / chi**2
    chi = np.where(rng.random(n) < 0.02, 0.0, chi)
    return cast(dict(chi=chi, alpha=alpha), dtype)


g = "ufunc"


def turn_floor(q):
    """1 - cos next to a whole turn: the rounding of the cosine."""
    with np.errstate(all="ignore"):
        return np.where(q["alpha"] * q["chi"] ** 2 > 1, 1 / np.abs(q["alpha"]), 0)


for k in range(6):
    add(f"ufunc{k}", [("chi", S, SQ), ("alpha", S, (-1, 0))], [(S, (k / 2, 0))], (lambda k: lambda chi, alpha: O.U(k, chi, alpha))(k), mk_chi, style="sc", group=g, path=f"twobody.ufunc{k}", ulp=200, scale_floor=turn_floor if k == 2 else None)
add("sigma_fn", [("pos_vec", V, L1), ("vel_vec", V, (1, -1)), ("mu", S, MU)], [("V", SQ)], lambda pos_vec, vel_vec, mu: O.dot(pos_vec, vel_vec) / np.sqrt(mu), mk_state(), col=("mu",), group=g, path="twobody.sigma_fn")

g = "lagrange"
add("lagrange_F", [("U2", S, L1), ("r0_mag", S, L1)], [(S, Z)], lambda U2, r0_mag: 1 - U2 / r0_mag, arc_maker(["U2", "r0_mag"]), group=g, path="twobody.lagrange_F")
add("lagrange_G", [("U1", S, SQ), ("U2", S, L1), ("sigma0", S, SQ), ("r0_mag", S, L1), ("mu", S, MU)], [(S, T1)], lambda U1, U2, sigma0, r0_mag, mu: (r0_mag * U1 + sigma0 * U2) / np.sqrt(mu), arc_maker(["U1", "U2", "sigma0", "r0_mag", "mu"]), group=g, path="twobody.lagrange_G")
add("lagrange_Ft", [("U1", S, SQ), ("r_mag", S, L1), ("r0_mag", S, L1), ("mu", S, MU)], [(S, (0, -1))], lambda U1, r_mag, r0_mag, mu: -np.sqrt(mu) / r_mag * U1 / r0_mag, arc_maker(["U1", "r_mag", "r0_mag", "mu"]), group=g, path="twobody.lagrange_Ft")
add("lagrange_Gt", [("U2", S, L1), ("r_mag", S, L1)], [(S, Z)], lambda U2, r_mag: 1 - U2 / r_mag, arc_maker(["U2", "r_mag"]), group=g, path="twobody.lagrange_Gt")

g = "stm"
RV4 = [("r_vec", V, L1), ("v_vec", V, (1, -1)), ("r0_vec", V, L1), ("v0_vec", V, (1, -1))]
CD = (1, 1)
add("C_func", [("chi", S, SQ), ("U2", S, L1), ("U4", S, (2, 0)), ("U5", S, (2.5, 0)), ("deltat", S, T1), ("mu", S, MU)], [(S, CD)], lambda chi, U2, U4, U5, deltat, mu: (3 * U5 - chi * U4 - np.sqrt(mu) * deltat * U2) / np.sqrt(mu), arc_maker(["chi", "U2", "U4", "U5", "deltat", "mu"]), group=g, path="twobody.C_func")
names4 = ["r_vec", "v_vec", "r0_vec", "v0_vec"]
add("prpr0", RV4 + [("F", S, Z), ("C", S, CD), ("mu", S, MU)], [("m", Z)], ref_prpr0, arc_maker(names4 + ["F", "C", "mu"]), style="sc", group=g, path="twobody.prpr0")
add("prpv0", RV4 + [("F", S, Z), ("G", S, T1), ("C", S, CD), ("mu", S, MU)], [("m", T1)], ref_prpv0, arc_maker(names4 + ["F", "G", "C", "mu"]), style="sc", group=g, path="twobody.prpv0")
add("pvpr0", RV4 + [("Ft", S, (0, -1)), ("C", S, CD), ("mu", S, MU)], [("m", (0, -1))], ref_pvpr0, arc_maker(names4 + ["Ft", "C", "mu"]), style="sc", group=g, path="twobody.pvpr0")
add("pvpv0", RV4 + [("F", S, Z), ("Gt", S, Z), ("C", S, CD), ("mu", S, MU)], [("m", Z)], ref_pvpv0, arc_maker(names4 + ["F", "Gt", "C", "mu"]), style="sc", group=g, path="twobody.pvpv0")
add("dxdx0", RV4 + [("deltat", S, T1), ("mu", S, MU)], [("m", Z), ("m", T1), ("m", (0, -1)), ("m", Z)], ref_stm, arc_maker(names4 + ["deltat", "mu"]), style="sc", group=g, path="twobody.dxdx0", ulp=3000, blocks=True)

g = "elements"
add("inclination", [("h_vec", V, (2, -1))], [("a", Z)], lambda h_vec: np.arctan2(np.hypot(h_vec[..., 0], h_vec[..., 1]), h_vec[..., 2]), None, group=g, frame="z")
add("true_anomaly", [("pos_vec", V, L1), ("e_vec", V, Z)], [("a", Z)], lambda pos_vec, e_vec: ang_unsigned(e_vec, pos_vec), None, group=g)
add("right_ascension", [("node_vec", V, (2, -1))], [("a", Z)], lambda node_vec: wrap2pi(np.arctan2(node_vec[..., 1], node_vec[..., 0])), None, group=g, frame=None)
add("argument_of_periapsis", [("node_vec", V, (2, -1)), ("e_vec", V, Z)], [("a", Z)], lambda node_vec, e_vec: ang_unsigned(node_vec, e_vec), None, group=g)
SAFE_E = ("low", "moderate", "high", "hyperbolic", "very_hyperbolic")


def safe_incl(rng, n):
    return rng.uniform(0.05, np.pi - 0.05, n)


def mk_el(rng, n, dtype):
    o = gen.orbits(rng, n, np.float64, e_regimes=SAFE_E, incl=("generic", safe_incl))
    h = np.cross(o["r"], o["v"])
    ev = O.ecc_vec(O.ld(o["r"]), O.ld(o["v"]), O.ld(o["mu"]))
    # (the formulas multiply these vectors; in single precision keep the products representable,
    # which loses nothing: only the directions matter for these angles)
    k = 1e12 if dtype == np.float32 else np.inf
    node = ref_node(h)
    hm, nm = O.norm(h)[:, None], O.norm(node)[:, None]
    h, node = h / np.maximum(hm / k, 1), node / np.maximum(nm / k, 1)
    return cast(dict(h_vec=h, pos_vec=o["r"], e_vec=ev, node_vec=node), dtype)


for nm in ("inclination", "true_anomaly", "right_ascension", "argument_of_periapsis"):
    TABLE[nm].make = mk_el
    TABLE[nm].outs = [("A", Z)]


def mk_state_safe(rng, n, dtype):
    o = gen.orbits(rng, n, dtype, e_regimes=SAFE_E, incl=("generic", safe_incl))
    return dict(pos_vec=o["r"], vel_vec=o["v"], mu=o["mu"])


add("rv2coe", [("pos_vec", V, L1), ("vel_vec", V, (1, -1)), ("mu", S, MU)], [(S, L1), (S, Z), ("a", Z), ("a", Z), ("a", Z), ("a", Z)], ref_rv2coe, mk_state_safe, col=("mu",), group=g, multi=True, frame="z")


def mk_coe(rng, n, dtype):
    _, e = gen.pick_e(rng, n, WIDE, dtype == np.float32)
    L, mu = mk_scales(rng, n, dtype)
    fm = np.where(e >= 1, np.arccos(-1 / np.maximum(e, 1)) * 0.97, np.where(e > 0.99, 3.0, np.pi))
    _, inc = gen.pick_incl(rng, n)
    return cast(dict(p=L * (1 + e), e=e, incl=inc, raan=gen.special_angles(rng, n), argp=gen.special_angles(rng, n), true_anom=rng.uniform(-1, 1, n) * fm, mu=mu), dtype)


add("coe2rv", [("p", S, L1), ("e", S, Z), ("incl", S, Z), ("raan", S, Z), ("argp", S, Z), ("true_anom", S, Z), ("mu", S, MU)], [(V, L1), (V, (1, -1))], lambda p, e, incl, raan, argp, true_anom, mu: O.coe2rv(p, e, incl, raan, argp, true_anom, mu), mk_coe, group=g, multi=True, frame=None)

g = "path"


def mk_path(rng, n, dtype):
    o = gen.orbits(rng, n, np.float64, e_regimes=SAFE_E)
    h = np.cross(o["r"], o["v"])
    # second point: in the orbital plane, anywhere (a Lambert end point need not be on the orbit)
    rh = o["r"] / np.linalg.norm(o["r"], axis=1, keepdims=True)
    th = np.cross(h, rh)
    th /= np.linalg.norm(th, axis=1, keepdims=True)
    ang = rng.uniform(0.02, 2 * np.pi - 0.02, n)
    ang = np.where(np.abs(ang - np.pi) < 0.02, ang + 0.05, ang)
    # some transfers of nearly no, half or a whole turn
    near = 10.0 ** rng.uniform(-4 if dtype == np.float64 else -2, -1.5, n) * rng.choice([-1.0, 1.0], n)
    ang = np.where(rng.random(n) < 0.2, np.mod(rng.choice([0, np.pi], n) + near, 2 * np.pi), ang)
    rr = np.linalg.norm(o["r"], axis=1) * 10.0 ** np.where(rng.random(n) < 0.6, rng.uniform(-0.5, 0.5, n), rng.uniform(-4, 4, n))
    r2 = rr[:, None] * (np.cos(ang)[:, None] * rh + np.sin(ang)[:, None] * th)
    p = np.linalg.norm(h, axis=1) ** 2 / o["mu"]
    rp = p / (1 + o["e"])
    fac = np.where(rng.random(n) < 0.5, 1 + rng.choice([-1, 1], n) * 10.0 ** rng.uniform(-3, 0, n), 10.0 ** rng.uniform(-1, 1, n))
    return cast(dict(r1=o["r"], v1=o["v"], r2=r2, mu=o["mu"], rmin=rp * np.maximum(fac, 0.01), r=o["r"], v=o["v"]), dtype)


def mk_nmax(rng, n, dtype):
    L, mu = mk_scales(rng, n, dtype)
    wide = rng.random(n) < 0.4
    r1 = L * 10.0 ** np.where(wide, rng.uniform(0, 4, n), rng.uniform(0, 0.5, n))
    r2 = L * 10.0 ** np.where(wide, rng.uniform(0, 4, n), rng.uniform(0, 0.5, n))
    rp = L * np.where(wide, logu(rng, n, -4, 0), rng.uniform(0.1, 1.0, n))
    am = 0.5 * (np.maximum(r1, r2) + rp)
    tof = 2 * np.pi * np.sqrt(am**3 / mu) * 10.0 ** np.where(wide, rng.uniform(-3, 4, n), rng.uniform(-1, 2, n))
    return cast(dict(rp_min=rp, r1=r1, r2=r2, tof=tof, mu=mu), dtype)


add("nmax_by_periapsis", [("rp_min", S, L1), ("r1", S, L1), ("r2", S, L1), ("tof", S, T1), ("mu", S, MU)], [("i", Z)], lambda rp_min, r1, r2, tof, mu: np.floor(tof / (2 * O.PI) * np.sqrt(mu / (0.5 * (np.maximum(r1, r2) + rp_min)) ** 3)), mk_nmax, group=g, path="twobody.nmax_by_periapsis", smooth=False)
add("is_short_way", [("r1", V, L1), ("v1", V, (1, -1)), ("r2", V, L1)], [("b", Z)], ref_short, mk_path, style="sc", group=g, path="twobody.is_short_way", smooth=False)
add("pass_perigee", [("r1", V, L1), ("v1", V, (1, -1)), ("r2", V, L1), ("mu", S, MU)], [("b", Z)], ref_pass, mk_path, style="sc", group=g, path="twobody.pass_perigee", smooth=False, border=near_apse)


def ref_rplow(rmin, r, v, mu):
    h = np.cross(r, v)
    p = O.dot(h, h) / mu
    return p / (1 + O.norm(O.ecc_vec(r, v, mu))) < rmin


add("rp_islower_rmin", [("rmin", S, L1), ("r", V, L1), ("v", V, (1, -1)), ("mu", S, MU)], [("b", Z)], ref_rplow, mk_path, style="sc", group=g, path="twobody.rp_islower_rmin", smooth=False)

g = "rot"


def mk_ang(rng, n, dtype):
    a = np.where(rng.random(n) < 0.5, rng.uniform(-7, 7, n), logu(rng, n, -6, 3, True))
    a = np.where(rng.random(n) < 0.15, logu(rng, n, -18, 6, True), a)
    a = np.where(rng.random(n) < 0.1, rng.integers(-80, 81, n) * np.pi / 4, a)
    a = np.where(rng.random(n) < 0.1, np.rint(rng.uniform(-8, 9, n)) * np.pi / 4 + logu(rng, n, -12, -2, True), a)
    return cast(dict(angle=a), dtype)


for nm, rf in (("rotmat3dx", O.rotx), ("rotmat3dy", O.roty), ("rotmat3dz", O.rotz)):
    add(nm, [("angle", S, Z)], [("m", Z)], (lambda rf: lambda angle: rf(angle))(rf), mk_ang, group=g, path="utils." + nm, frame=None)

g = "prop"


def ref_kep(ts, r0_vec, v0_vec, mu):
    r, v, _ = O.propagate(r0_vec, v0_vec, ts, mu)
    return r, v


def mk_kep(rng, n, dtype):
    o = gen.orbits(rng, n, dtype, e_regimes=WIDE)
    tl, dt = gen.times(rng, o, dtype, kinds=("tiny", "frac", "orbit", "multi"), many=20)
    return dict(ts=dt, r0_vec=o["r"], v0_vec=o["v"], mu=o["mu"])


add("kepler", [("ts", S, T1), ("r0_vec", V, L1), ("v0_vec", V, (1, -1)), ("mu", S, MU)], [("K", L1), ("K", (1, -1))], ref_kep, mk_kep, style="sc", group=g, multi=True, path="prop.kepler", ulp=300)
