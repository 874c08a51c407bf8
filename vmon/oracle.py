"""Independent reference mathematics in extended precision (numpy longdouble), vectorised.

Nothing here imports the code under test.
"""

from math import factorial

import numpy as np

LD = np.longdouble
PI = LD("3.14159265358979323846264338327950288")


def ld(x):
    return np.asarray(x).astype(LD)


def norm(v):
    return np.sqrt(np.sum(v * v, axis=-1))


def dot(a, b):
    return np.sum(a * b, axis=-1)


# ------------------------------------------------------------------ universal functions
def _series(k, ps):
    out = np.full_like(ps, LD(1))
    for j in range(15, 0, -1):
        out = 1 - ps * out / LD((k + 2 * j - 1) * (k + 2 * j))
    return out / LD(factorial(k))


def stumpffs(psi, kmax):
    """[c_0 .. c_kmax](psi), c_k(psi) = sum (-psi)^j / (k+2j)!  (psi = alpha chi^2)."""
    psi = ld(psi)
    shape = psi.shape
    x = psi.reshape(-1)
    out = [np.empty_like(x) for _ in range(kmax + 1)]
    with np.errstate(all="ignore"):
        small = np.abs(x) < 2
        xs = x[small]
        if xs.size:
            hi = [None] * (kmax + 1)
            for k in range(kmax, max(kmax - 2, -1), -1):
                hi[k] = _series(k, xs)
            for k in range(kmax - 2, -1, -1):
                hi[k] = LD(1) / LD(factorial(k)) - xs * hi[k + 2]
            for k in range(kmax + 1):
                out[k][small] = hi[k]
        for sgn in (1, -1):
            m = ~small & ((x > 0) if sgn > 0 else ~(x > 0))
            if not m.any():
                continue
            xb = x[m]
            w = np.sqrt(np.abs(xb))
            if sgn > 0:
                cs = [np.cos(w), np.sin(w) / w]
            else:
                cs = [np.cosh(w), np.sinh(w) / w]
            for i in range(2, kmax + 1):
                cs.append((LD(1) / LD(factorial(i - 2)) - cs[i - 2]) / xb)
            for k in range(kmax + 1):
                out[k][m] = cs[k]
    return [o.reshape(shape) for o in out]


def stumpff(k, psi):
    return stumpffs(psi, k)[k]


def Uall(chi, alpha, kmax=3):
    chi, alpha = np.broadcast_arrays(ld(chi), ld(alpha))
    c = stumpffs(alpha * chi * chi, kmax)
    return [chi**k * c[k] for k in range(kmax + 1)]


def U(k, chi, alpha):
    return Uall(chi, alpha, k)[k]


# ------------------------------------------------------------------ root finding
def monotone_root(f, df, lo, hi, iters=140):
    """Root of an increasing function bracketed by [lo, hi] (vectorised Newton + bisection)."""
    lo, hi = ld(lo).copy(), ld(hi).copy()
    x = (lo + hi) / 2
    with np.errstate(all="ignore"):
        for _ in range(iters):
            fx = f(x)
            pos = fx > 0
            hi = np.where(pos, x, hi)
            lo = np.where(pos, lo, x)
            d = df(x)
            xn = x - fx / d
            # accept Newton strictly inside the bracket, otherwise bisect
            ok = np.isfinite(xn) & (xn > lo) & (xn < hi)
            mid = (lo + hi) / 2
            xn = np.where(ok, xn, mid)
            done = np.abs(xn - x) <= np.spacing(np.abs(x)) * 1
            if np.all(done | (fx == 0)):
                x = np.where(fx == 0, x, xn)
                break
            x = np.where(fx == 0, x, xn)
    return x


def kepler_E(M, e):
    M, e = ld(M), ld(e)
    k = np.floor(M / (2 * PI) + LD(0.5))
    m = M - 2 * PI * k
    E = monotone_root(
        lambda E: E - e * np.sin(E) - m,
        lambda E: 1 - e * np.cos(E),
        m - LD(1.0000001),
        m + LD(1.0000001),
    )
    return E + 2 * PI * k


def kepler_H(N, e):
    N, e = ld(N), ld(e)
    s = np.sign(N)
    a = np.abs(N)
    hi = np.minimum(np.cbrt(6 * a), np.arcsinh(a / (e - 1))) * LD(1.000001) + LD(1e-30)
    H = monotone_root(
        lambda H: e * np.sinh(H) - H - a, lambda H: e * np.cosh(H) - 1, np.zeros_like(a), hi
    )
    return s * H


def kepler_chi(dt, alpha, r0, sigma0, mu):
    """Root chi of r0 U1 + sigma0 U2 + U3 = sqrt(mu) dt; robust for every conic."""
    dt, alpha, r0, sigma0, mu = [
        np.atleast_1d(x).copy() for x in np.broadcast_arrays(*[ld(x) for x in (dt, alpha, r0, sigma0, mu)])
    ]
    tau = np.sqrt(mu) * dt
    with np.errstate(all="ignore"):
        # elliptic: take whole periods off, leaving at most half a period of either sign
        a_pos = np.where(alpha > 0, alpha, 1)
        per = 2 * PI / (a_pos * np.sqrt(a_pos))  # sqrt(mu) * period
        nrev = np.where(alpha > 0, np.rint(tau / per), 0)
        tr = np.where(alpha > 0, tau - nrev * per, tau)
        dchi = np.where(alpha > 0, nrev * 2 * PI / np.sqrt(a_pos), 0)
        sgn = np.where(tr < 0, LD(-1), LD(1))
        t = np.abs(tr)
        s0 = sigma0 * sgn

        def fall(c, i):
            u = Uall(c, alpha[i], 3)
            f = r0[i] * u[1] + s0[i] * u[2] + u[3] - t[i]
            d = r0[i] * u[0] + s0[i] * u[1] + u[2]
            dd = s0[i] * u[0] + (1 - alpha[i] * r0[i]) * u[1]
            sc = np.abs(r0[i] * u[1]) + np.abs(s0[i] * u[2]) + np.abs(u[3]) + t[i] + np.abs(c) * (
                np.abs(r0[i] * u[0]) + np.abs(s0[i] * u[1]) + np.abs(u[2])
            )
            return f, d, dd, sc

        aneg = np.where(alpha < 0, -alpha, 1)
        c = np.where(
            alpha < 0,
            np.arcsinh(t * aneg * np.sqrt(aneg)) / np.sqrt(aneg),
            np.where(alpha > 0, alpha * t, 0),
        )
        todo = np.arange(c.size)
        tol = 64 * np.finfo(LD).eps
        conv = np.zeros(c.size, bool)
        for _ in range(60):
            f, d, dd, sc = fall(c[todo], todo)
            fin = np.abs(f) <= tol * sc
            conv[todo[fin]] = True
            step = 5 * f / (d + np.sqrt(np.abs(16 * d * d - 20 * f * dd)))
            step = np.where(np.isfinite(step), step, 0)
            c[todo] = c[todo] - step
            todo = todo[~fin]
            if not todo.size:
                break
        # one Newton polish for all
        i = np.arange(c.size)
        f, d, _, sc = fall(c, i)
        c = np.where(np.isfinite(f / d), c - f / d, c)
        f, d, _, sc = fall(c, i)
        bad = np.nonzero(~((np.abs(f) <= 1e3 * tol * sc) & (c >= -1e-30)))[0]
        if bad.size:  # bracketing fallback
            lo = np.zeros(bad.size, LD)
            hi = np.sqrt(r0[bad])
            for _ in range(200):
                need = fall(hi, bad)[0] < 0
                if not need.any():
                    break
                lo = np.where(need, hi, lo)
                hi = np.where(need, hi * 2, hi)
            c[bad] = monotone_root(lambda x: fall(x, bad)[0], lambda x: fall(x, bad)[1], lo, hi)
    return sgn * c + dchi


def alpha_of(r0v, v0v, mu):
    r = norm(r0v)
    return 2 / r - dot(v0v, v0v) / mu


def propagate(r0v, v0v, dt, mu):
    """Exact two-body propagation in longdouble.  r0v, v0v: (n,3); dt, mu: (n,)."""
    r0v, v0v, dt, mu = ld(r0v), ld(v0v), ld(dt), ld(mu)
    r0 = norm(r0v)
    alpha = alpha_of(r0v, v0v, mu)
    s0 = dot(r0v, v0v) / np.sqrt(mu)
    chi = kepler_chi(dt, alpha, r0, s0, mu)
    u = Uall(chi, alpha, 3)
    r = r0 * u[0] + s0 * u[1] + u[2]
    F = 1 - u[2] / r0
    G = (r0 * u[1] + s0 * u[2]) / np.sqrt(mu)
    Ft = -np.sqrt(mu) / (r * r0) * u[1]
    Gt = 1 - u[2] / r
    rv = F[..., None] * r0v + G[..., None] * v0v
    vv = Ft[..., None] * r0v + Gt[..., None] * v0v
    return rv, vv, dict(chi=chi, alpha=alpha, sigma0=s0, r0=r0, r=r, F=F, G=G, Ft=Ft, Gt=Gt, U=u)


def stm_fd(r0v, v0v, dt, mu, h=None):
    """Jacobian d(r,v)/d(r0,v0) by 4th-order central differences of the longdouble flow: (n,6,6)."""
    r0v, v0v, dt, mu = ld(r0v), ld(v0v), ld(dt), ld(mu)
    n = r0v.shape[0]
    # steps scaled to the orbit: position step relative to r0, velocity relative to v scale
    sr = norm(r0v)
    sv = np.sqrt(mu / sr) + norm(v0v)
    h = LD(2e-5) if h is None else LD(h)
    out = np.zeros((n, 6, 6), LD)
    for j in range(6):
        acc = np.zeros((n, 6), LD)
        step = h * (sr if j < 3 else sv)
        for m, w in ((1, LD(8)), (-1, LD(-8)), (2, LD(-1)), (-2, LD(1))):
            ra, va = r0v.copy(), v0v.copy()
            if j < 3:
                ra[:, j] += m * step
            else:
                va[:, j - 3] += m * step
            rr, vv, _ = propagate(ra, va, dt, mu)
            acc += w * np.concatenate([rr, vv], axis=1)
        out[:, :, j] = acc / (12 * step[:, None])
    return out


def stm_exact(r0v, v0v, dt, mu):
    """Jacobian by complex-free forward differentiation: integrate nothing, use Shepperd-type formula.

    Kept to Goodyear's closed form evaluated in longdouble from the state itself.
    """
    r0v, v0v, dt, mu = ld(r0v), ld(v0v), ld(dt), ld(mu)
    rv, vv, q = propagate(r0v, v0v, dt, mu)
    chi, alpha, s0, r0, r = q["chi"], q["alpha"], q["sigma0"], q["r0"], q["r"]
    sm = np.sqrt(mu)
    U2, U4, U5 = q["U"][2], U(4, chi, alpha), U(5, chi, alpha)
    # W = sqrt(mu)-weighted time integral (Battin's C)
    C = (3 * U5 - chi * U4 - sm * dt * U2) / sm
    I3 = np.eye(3, dtype=LD)[None]
    dv = vv - v0v
    o = lambda a, b: a[:, :, None] * b[:, None, :]
    s = lambda x: x[:, None, None]
    F, G, Ft, Gt = q["F"], q["G"], q["Ft"], q["Gt"]
    Rt = s(r / mu) * o(dv, dv) + s(1 / r0**3) * (s(r0 * (1 - F)) * o(rv, r0v) + s(C) * o(vv, r0v)) + s(F) * I3
    R = s(r0 / mu * (1 - F)) * (o(rv - r0v, v0v) - o(dv, r0v)) + s(C / mu) * o(vv, v0v) + s(G) * I3
    V = s(r0 / mu) * o(dv, dv) + s(1 / r**3) * (s(r0 * (1 - F)) * o(rv, r0v) - s(C) * o(rv, v0v)) + s(Gt) * I3
    Vt = (
        -s(1 / r0**2) * o(dv, r0v)
        - s(1 / r**2) * o(rv, dv)
        + s(Ft)
        * (
            I3
            - s(1 / r**2) * o(rv, rv)
            + s(1 / (mu * r)) * np.matmul(o(rv, vv) - o(vv, rv), o(rv, dv))
        )
        - s(mu * C / (r**3 * r0**3)) * o(rv, r0v)
    )
    return np.block([[Rt, R], [Vt, V]]), rv, vv, q


# ------------------------------------------------------------------ conic geometry
def ecc_vec(rv, vv, mu):
    h = np.cross(rv, vv)
    return np.cross(vv, h) / ld(mu)[..., None] - rv / norm(rv)[..., None]


def rotz(a):
    a = ld(a)
    c, s, z, o = np.cos(a), np.sin(a), np.zeros_like(a), np.ones_like(a)
    return np.stack([np.stack([c, -s, z], -1), np.stack([s, c, z], -1), np.stack([z, z, o], -1)], -2)


def rotx(a):
    a = ld(a)
    c, s, z, o = np.cos(a), np.sin(a), np.zeros_like(a), np.ones_like(a)
    return np.stack([np.stack([o, z, z], -1), np.stack([z, c, -s], -1), np.stack([z, s, c], -1)], -2)


def roty(a):
    a = ld(a)
    c, s, z, o = np.cos(a), np.sin(a), np.zeros_like(a), np.ones_like(a)
    return np.stack([np.stack([c, z, s], -1), np.stack([z, o, z], -1), np.stack([-s, z, c], -1)], -2)


def coe2rv(p, e, i, O, w, f, mu):
    """Textbook direction cosines (Vallado), not via rotation-matrix products."""
    p, e, i, O, w, f, mu = np.broadcast_arrays(*[ld(x) for x in (p, e, i, O, w, f, mu)])
    r = p / (1 + e * np.cos(f))
    u = w + f
    cO, sO, ci, si = np.cos(O), np.sin(O), np.cos(i), np.sin(i)
    rv = r[..., None] * np.stack(
        [cO * np.cos(u) - sO * np.sin(u) * ci, sO * np.cos(u) + cO * np.sin(u) * ci, np.sin(u) * si], -1
    )
    k = np.sqrt(mu / p)
    A = np.sin(u) + e * np.sin(w)
    B = np.cos(u) + e * np.cos(w)
    vv = k[..., None] * np.stack([-cO * A - sO * B * ci, -sO * A + cO * B * ci, B * si], -1)
    return rv, vv


# ------------------------------------------------------------------ gravity
def zonal_acc(pos, mu, Jn, R, n):
    """Acceleration of the degree-n zonal harmonic from Legendre recurrences (n=0 point mass).

    U = -(mu/r) Jn (R/r)^n P_n(z/r);  a = grad U (U positive potential convention), i.e.
    a_vec = mu Jn R^n / r^(n+2) [ ((n+1) P_n + s P_n') rhat - P_n' khat ],  s = z/r.
    """
    pos = ld(pos)
    r = norm(pos)
    s = pos[..., 2] / r
    rhat = pos / r[..., None]
    if n == 0:
        return -(ld(mu) / r**2)[..., None] * rhat
    P = [np.ones_like(s), s]
    dP = [np.zeros_like(s), np.ones_like(s)]
    for k in range(2, n + 1):
        P.append(((2 * k - 1) * s * P[k - 1] - (k - 1) * P[k - 2]) / k)
        dP.append(dP[k - 2] + (2 * k - 1) * P[k - 1])
    khat = np.zeros_like(rhat)
    khat[..., 2] = 1
    c = ld(mu) * ld(Jn) / r**2 * (ld(R) / r) ** n
    return c[..., None] * (((n + 1) * P[n] + s * dP[n])[..., None] * rhat - dP[n][..., None] * khat)


def flow_reference(r0v, v0v, dt, mu):
    """Exact final state plus first-order error amplification per unit roundoff (er, ev)."""
    Phi, rv, vv, q = stm_exact(r0v, v0v, dt, mu)
    r0v, v0v, dt, mu = ld(r0v), ld(v0v), ld(dt), ld(mu)
    aP = np.abs(Phi)
    r0, v0 = norm(r0v), norm(v0v)
    # the code forms alpha, sigma0, chi, U's, F, G from the inputs: relative errors of a few ulp
    # in each are equivalent to componentwise-in-norm perturbations of r0, v0, dt, mu
    s = np.concatenate([np.repeat(r0[:, None], 3, 1), np.repeat(v0[:, None], 3, 1)], 1)
    amp = np.einsum("nij,nj->ni", aP, s)
    vmag, rmag = norm(vv), norm(rv)
    acc = mu / rmag**2
    # time/mu perturbation and the cancellation in F r0 + G v0
    er = amp[:, :3].max(1) + vmag * np.abs(dt) + np.abs(q["F"]) * r0 + np.abs(q["G"]) * v0 + rmag
    ev = amp[:, 3:].max(1) + acc * np.abs(dt) + np.abs(q["Ft"]) * r0 + np.abs(q["Gt"]) * v0 + vmag
    return rv, vv, er, ev, Phi, q
