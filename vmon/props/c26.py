"""C26: a result depends on the arguments of its call only, and a call changes nothing else.

A pool of calls is evaluated once (judged against the reference where there is one) and then again
and again: in random histories between failing, traced, differentiated and hostile calls, from
several threads, and in a fresh process in another order.  Every repetition must be identical bit
for bit.  Arguments, defaults and process-wide settings are compared before and after.
"""

import copy
import decimal
import gc
import inspect
import io
import json
import locale
import logging
import os
import random
import signal
import subprocess
import sys
import tempfile
import threading
import types
import warnings

import numpy as np

from .. import table as T
from ..common import judge_table

SLOW = ("kepler", "dxdx0")


def digest(out):
    import jax

    res = []
    for o in jax.tree_util.tree_leaves(out):
        a = np.asarray(o)
        res.append((str(a.dtype), a.shape, a.tobytes().hex() if a.nbytes <= 256 else hash(a.tobytes())))
    return res


# ------------------------------------------------------------------ the pool of calls
def build_pool(adx, seed, F, part, thorough):
    """Deterministic in (seed, precision, part): the child process builds the same pool."""
    import diffrax
    import jax
    import jax.numpy as jnp

    rng = np.random.default_rng(seed)
    pool = []  # (label, thunk, meta)
    for i, (nm, fn) in enumerate(T.TABLE.items()):
        if (2 if nm in SLOW else i % 2) != part:
            continue
        f0 = fn.get(adx)
        m = 4
        inp = fn.make(rng, m, F)
        # near-collisions: calls that share all arguments but one
        for j, q in enumerate(fn.names):
            if j and rng.random() < 0.5:
                inp[q][1] = inp[q][0]
        jit = jax.jit(f0)
        vm = jax.jit(jax.vmap(f0))
        for r in range(m if thorough else 2):
            row = [np.array(inp[q][r]) for q in fn.names]
            pool.append((f"{nm}:eager:{r}", (lambda f0=f0, row=row: f0(*[jnp.asarray(x) for x in row])), (fn, inp, r)))
            if nm not in SLOW or r == 0:
                pool.append((f"{nm}:numpy:{r}", (lambda f0=f0, row=row: f0(*row)), (fn, inp, r)))
            pool.append((f"{nm}:jit:{r}", (lambda jit=jit, row=row: jit(*row)), (fn, inp, r)))
        if fn.style == "ew":
            args = fn.shape_args(inp)
            pool.append((f"{nm}:batch", (lambda f0=f0, args=args: f0(*args)), None))
        vargs = [inp[q] for q in fn.names]
        pool.append((f"{nm}:vmap", (lambda vm=vm, vargs=vargs: vm(*vargs)), None))
    if part == 2:
        G = adx.gravity
        xs = rng.normal(size=(3, 6)).astype(F)
        for nm, key in (("point_mass_grav", None), ("j2_acc", "J2"), ("j3_acc", "J3"), ("j4_acc", "J4")):
            f0 = getattr(G, nm)
            jit = jax.jit(f0)
            for r in range(3):
                args = {"mu": F(rng.uniform(0.5, 2)), "R_eq": F(rng.uniform(0.5, 2)), "J2": F(rng.uniform(0, 1e-2)), "J3": F(rng.uniform(0, 1e-2)), "J4": F(rng.uniform(0, 1e-2))}
                x = xs[r // 2]
                pool.append((f"{nm}:args:{r}", (lambda f0=f0, x=x, args=args: f0(0.0, x, args)), None))
                pool.append((f"{nm}:jit:{r}", (lambda jit=jit, x=x, args=args: jit(0.0, x, args)), None))
                pool.append((f"{nm}:default:{r}", (lambda f0=f0, x=x: f0(0.0, x)), None))
        for r in range(3):
            x, rm = xs[r], {"rmin": F(rng.uniform(0, 2))}
            pool.append((f"radius_islow:args:{r}", (lambda x=x, rm=rm: adx.events.radius_islow(0.0, x, rm)), None))
            pool.append((f"radius_islow:default:{r}", (lambda x=x: adx.events.radius_islow(0.0, x)), None))
        P = adx.prop

        def field(t, x, args):
            return jnp.concatenate([x[3:], G.point_mass_grav(t, x, args)])

        def field2(t, x, args):
            return jnp.concatenate([x[3:], G.point_mass_grav(t, x, args) + G.j2_acc(t, x, args)])

        tm, tm2 = diffrax.ODETerm(field), diffrax.ODETerm(field2)
        x0s = np.array([[1, 0, 0, 0, 1, 0.1], [1, 0, 0, 0, 0.8, 0.1], [1, 0, 0, 0, 1, 0.1]], F)
        ts = np.array([0.0, 0.5, 1.0, 1.5], F)
        ev = diffrax.Event(adx.events.radius_islow)
        for r in range(3):
            od = P.OrbDynx(tm) if r == 0 else P.OrbDynx(tm2, {"mu": F(1.0), "J2": F(1e-3 * r), "R_eq": F(1.0), "rmin": F(0.7)}, ev)
            x = x0s[r]
            t1 = F([1.5, 2.5, 2.0][r])
            pool.append((f"to_final:{r}", lambda od=od, x=x, t1=t1: P.to_final(od, x, t1), None))
            pool.append((f"adaptive_steps:{r}", lambda od=od, x=x, t1=t1: P.adaptive_steps(od, x, t1, max_steps=256), None))
            pool.append((f"fixed_steps:{r}", lambda od=od, x=x, t1=t1: P.fixed_steps(od, x, t1, F(0.05), max_steps=64), None))
            pool.append((f"custom_steps:{r}", lambda od=od, x=x, t1=t1: P.custom_steps(od, x, t1, ts), None))
            pool.append((f"cowell_method:{r}", lambda od=od, x=x, t1=t1: P.cowell_method(od, x, t1, diffrax.SaveAt(t0=True, t1=True)), None))
    return pool


def leaves_of(label, out):
    # a Solution also carries the inputs and statistics; compare what it reports
    if hasattr(out, "ts") and hasattr(out, "ys") and hasattr(out, "stats"):
        return [out.ts, out.ys, out.stats["num_steps"], out.stats["num_accepted_steps"]]
    return out


def evaluate(entry):
    return digest(leaves_of(entry[0], entry[1]()))


# ------------------------------------------------------------------ process-wide settings
def settings():
    import jax

    st = {f"jax.{k}": repr(v) for k, v in jax.config.values.items()}
    st["np.err"] = repr(sorted(np.geterr().items()))
    st["np.print"] = repr(sorted((k, v) for k, v in np.get_printoptions().items() if k != "formatter"))
    s = np.random.get_state()
    st["np.random"] = repr((s[0], hash(s[1].tobytes()), s[2:]))
    st["random"] = repr(hash(random.getstate()))
    st["environ"] = repr(sorted(os.environ.items()))
    st["cwd"] = os.getcwd()
    st["gc"] = repr((gc.isenabled(), gc.get_threshold()))
    st["logging"] = repr((logging.root.level, len(logging.root.handlers), logging.root.manager.disable))
    st["signals"] = repr([signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)])
    st["locale"] = repr(locale.setlocale(locale.LC_ALL))
    st["hooks"] = repr((sys.excepthook is sys.__excepthook__, sys.displayhook is sys.__displayhook__, sys.gettrace(), sys.getprofile()))
    st["umask"] = open("/proc/self/status").read().split("Umask:")[1].split()[0]
    st["decimal"] = repr(decimal.getcontext())
    st["recursion"] = repr(sys.getrecursionlimit())
    st["path"] = repr(sys.path)
    return st


IMPORT_PROBE = r"""
import io, json, os, sys, contextlib
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from vmon.props.c26 import settings
import jax, jax.numpy, diffrax, equinox, optimistix, lineax, jaxtyping, typing
jax.numpy.ones(3).block_until_ready()
import vmon.env
SRC = os.path.join(vmon.env.REPO, "src")
sys.path.insert(0, SRC)
if X64: jax.config.update("jax_enable_x64", True)
a = settings()
import warnings
fa = list(map(repr, warnings.filters))
buf = io.StringIO()
fds = set(os.listdir("/proc/self/fd"))
tree = lambda: sorted((p, f) for p, _, fs in os.walk(SRC) for f in fs)
t0 = tree()
with contextlib.redirect_stdout(buf):
    sys.path.remove(SRC)
    m = vmon.env.load("f64" if X64 else "f32")
b = settings()
b["path"] = a["path"]
fb = list(map(repr, warnings.filters))
print(json.dumps({"changed": {k: [a.get(k), b.get(k)] for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)},
  "filters": fa == fb, "printed": buf.getvalue(), "files": tree() == t0, "backend": jax.default_backend(),
  "dtype": str(jax.numpy.zeros(2).dtype)}))
"""


def run(mon, env, adx):
    import jax
    import jax.numpy as jnp

    rng, F = env.rng, env.dtype
    seed = int(rng.integers(2**31))
    st00 = settings()
    pool = build_pool(adx, seed, F, env.part, env.thorough)
    child = start_child(env, seed)
    quiet(mon, env, adx)  # first, while every call is a first call
    st0 = settings()
    ch = {k: [st00.get(k), st0.get(k)] for k in sorted(set(st00) | set(st0)) if st00.get(k) != st0.get(k)}
    mon.require("settings", not ch, ch, "a process-wide setting has changed")
    out0 = io.StringIO()
    stdout, sys.stdout = sys.stdout, out0
    try:
        body(mon, env, adx, pool, st0)
    finally:
        sys.stdout = stdout
    mon.require("settings", out0.getvalue() == "", dict(printed=out0.getvalue()[:300]), "calls print nothing")
    reused(mon, env, adx)
    finish_child(mon, env, child, pool)
    if env.part == 0:
        here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        for x64 in (False, True):
            if x64 != env.x64:
                continue
            p = subprocess.run([sys.executable, "-c", f"HERE = {here!r}\nX64 = {x64}\n" + IMPORT_PROBE], capture_output=True, text=True, timeout=300)
            if p.returncode:
                mon.require("import", False, dict(stderr=p.stderr[-600:]), "importing works")
                continue
            r = json.loads(p.stdout.strip().splitlines()[-1])
            mon.require("import", not r["changed"], r["changed"], "importing changes no process-wide setting")
            mon.require("import", r["filters"], r, "importing changes no warning filter")
            mon.require("import", r["printed"] == "", r, "importing prints nothing")
            mon.require("import", r["files"], r, "importing writes no file")
            mon.require("import", r["dtype"] == ("float64" if x64 else "float32"), r, "importing keeps the default precision")
    # the parent's own results may have been produced by a broken default precision
    mon.require("import", str(jnp.zeros(2).dtype) == ("float64" if env.x64 else "float32"), dict(dtype=str(jnp.zeros(2).dtype)), "the default precision is kept")


def start_child(env, seed):
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    out = tempfile.NamedTemporaryFile(prefix="vmon_child_", suffix=".json", delete=False)
    out.close()
    p = subprocess.Popen([sys.executable, "-m", "vmon.props.c26", env.mode, str(seed), str(env.part), str(int(env.thorough)), out.name],
                         cwd=here, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return p, out.name


def finish_child(mon, env, child, pool):
    p, path = child
    try:
        _, err = p.communicate(timeout=600 if not env.thorough else 3000)
        got = json.load(open(path)) if os.path.getsize(path) else None
    finally:
        if p.poll() is None:
            p.kill()
        os.unlink(path)
    if got is None:
        mon.require("fresh-process", False, dict(stderr=err[-800:]), "the same calls work in a fresh process")
        return
    for label, thunk, _ in pool:
        if label in base_cache:
            mon.require("fresh-process", json.loads(json.dumps(base_cache[label])) == got.get(label), dict(call=label, here=base_cache[label], there=got.get(label)), "the result differs in a fresh process", regime=label.split(":")[0])


base_cache = {}


def child_main():
    mode, seed, part, thorough, path = sys.argv[1:6]
    sys.path.insert(0, os.getcwd())
    from vmon.env import load

    adx = load(mode)
    F = np.float32 if mode == "f32" else np.float64
    pool = build_pool(adx, int(seed), F, int(part), thorough == "1")
    order = np.random.default_rng(int(seed) + 1).permutation(len(pool))
    got = {}
    for i in order[::-1]:
        try:
            got[pool[i][0]] = evaluate(pool[i])
        except Exception as ex:  # noqa: BLE001
            got[pool[i][0]] = f"{type(ex).__name__}: {str(ex)[:200]}"
    with open(path, "w") as f:
        json.dump(got, f)


# ------------------------------------------------------------------ histories in this process
def body(mon, env, adx, pool, st0):
    import jax
    import jax.numpy as jnp

    rng, F = env.rng, env.dtype
    defaults = snapshot_defaults(adx)

    # -------- first evaluation; judged against the reference where the table has one
    for e in pool:
        ok, out = mon.call("history", lambda e=e: leaves_of(e[0], e[1]()), witness=dict(call=e[0]))
        if not ok:
            continue
        base_cache[e[0]] = digest(out)
        if e[2] is not None and e[0].split(":")[1] == "eager":
            fn, inp, r = e[2]
            if r == 1:  # a mixture of two situations: repeatable, but need not be an orbit
                continue
            row = {q: inp[q][r : r + 1] for q in fn.names}
            try:
                outs = [np.asarray(o)[None] for o in (T.split_blocks(np.asarray(out)[None]) if fn.blocks else (out if fn.multi else [out]))] if not fn.blocks else T.split_blocks(np.asarray(out)[None])
                outs = [o.reshape(1) if k in ("V", "A") else (o.reshape(1, 3) if k == "K" else o) for (k, _), o in zip(fn.outs, outs)]
            except Exception:  # noqa: BLE001
                mon.require("first", False, dict(call=e[0]), "usable result")
                continue
            judge_table(mon, env, "first", fn, row, outs, label=fn.name)

    def check(e, when):
        ok, out = mon.call("history", lambda: leaves_of(e[0], e[1]()), witness=dict(call=e[0], when=when))
        if ok and e[0] in base_cache:
            d = digest(out)
            mon.require("history", d == base_cache[e[0]], dict(call=e[0], when=when, first=base_cache[e[0]], now=d), "the same call returns something else", regime=e[0].split(":")[0] + ":" + when)

    # -------- what happens in between
    names = sorted({e[0].split(":")[0] for e in pool})
    table = [T.TABLE[n] for n in names if n in T.TABLE]

    def failing():
        fn = table[rng.integers(len(table))]
        try:
            fn.get(adx)(*["not a number"] * len(fn.names))
        except Exception:  # noqa: BLE001
            return
        return

    def missing():
        for f in (adx.gravity.j2_acc, adx.gravity.j4_acc, adx.events.radius_islow):
            try:
                f(0.0, jnp.ones(6), {})
            except Exception:  # noqa: BLE001
                pass

    def other():
        fn = table[rng.integers(len(table))]
        inp = fn.make(rng, 4, F)
        fn.get(adx)(*[inp[q][0] for q in fn.names])

    def nans():
        fn = table[rng.integers(len(table))]
        fn.get(adx)(*[np.full_like(fn.make(rng, 4, F)[q][0], np.nan) for q in fn.names])

    def traced():
        fn = table[rng.integers(len(table))]
        inp = fn.make(rng, 4, F)
        jax.jit(lambda *a: fn.get(adx)(*a))(*[inp[q][0] for q in fn.names])

    def aborted():
        # a trace that raises half way must leave nothing behind
        fn = table[rng.integers(len(table))]
        inp = fn.make(rng, 4, F)

        def g(*a):
            fn.get(adx)(*a)
            raise KeyError("stop")

        try:
            jax.jit(g)(*[inp[q][0] for q in fn.names])
        except KeyError:
            pass

    def graded():
        fn = table[rng.integers(len(table))]
        if not fn.smooth:
            return
        inp = fn.make(rng, 4, F)
        a = [inp[q][0] for q in fn.names]
        jax.jvp(lambda *b: fn.get(adx)(*b), [jnp.asarray(x) for x in a], [jnp.ones_like(x) for x in a])

    def mapped():
        fn = table[rng.integers(len(table))]
        inp = fn.make(rng, 4, F)
        jax.vmap(fn.get(adx))(*[inp[q] for q in fn.names])

    def wide():
        # another part of the program works in the other precision
        fn = table[rng.integers(len(table))]
        inp = fn.make(rng, 4, np.float32)
        with jax.enable_x64(not env.x64):
            fn.get(adx)(*[jnp.asarray(inp[q][0]) for q in fn.names])

    def user_dict():
        # the user reuses and edits a dictionary of its own
        a = {"mu": 3.0, "J2": 1e-2, "R_eq": 2.0, "rmin": 5.0, "J3": 0.1, "J4": 0.2}
        adx.gravity.j2_acc(0.0, jnp.ones(6), a)
        adx.gravity.point_mass_grav(0.0, jnp.ones(6), a)
        adx.events.radius_islow(0.0, jnp.ones(6), a)
        a["mu"] = 7.0
        a.pop("J2")

    def edited_dynamics():
        od = adx.prop.OrbDynx(None)
        od2 = od._replace(args={"mu": 5.0, "other": 1.0})
        return od2

    def leaks():
        fn = table[rng.integers(len(table))]
        inp = fn.make(rng, 4, F)
        a = [inp[q][0] for q in fn.names]
        with jax.checking_leaks():
            jax.jit(lambda *b: fn.get(adx)(*b))(*a)

    actions = [failing, missing, other, nans, traced, aborted, graded, mapped, wide, user_dict, edited_dynamics]
    fast = [e for e in pool]

    # every call right after a traced / wide / other call of the same function
    for rnd in range(env.n(1, 4)):
        order = rng.permutation(len(fast))
        for i in order:
            act = actions[rng.integers(len(actions))]
            if rng.random() < (0.35 if not env.thorough else 0.8):
                ok, _ = mon.call("history", act, witness=dict(action=act.__name__))
                check(fast[i], act.__name__)
            else:
                check(fast[i], "again")
    for fn in table:
        inp = fn.make(rng, 4, F)
        a = [inp[q][0] for q in fn.names]

        def leak_run():
            with jax.checking_leaks():
                return jax.jit(lambda *b: fn.get(adx)(*b))(*a)

        if fn.name in SLOW and not env.thorough:
            continue
        ok, _ = mon.call("leaks", leak_run, witness=dict(function=fn.name))
        if ok:
            mon.require("leaks", True, dict(function=fn.name))

    # -------- compiled programs forgotten
    jax.clear_caches()
    for i in rng.permutation(len(fast))[: env.n(12, 80)]:
        check(fast[i], "caches cleared")

    # -------- arguments are left alone
    arguments(mon, env, adx, table)

    # -------- several threads
    threads(mon, env, fast)

    # -------- defaults and settings
    mon.require("settings", snapshot_defaults(adx) == defaults, dict(before=defaults, after=snapshot_defaults(adx)), "a default argument has changed")
    st1 = settings()
    ch = {k: [st0.get(k), st1.get(k)] for k in sorted(set(st0) | set(st1)) if st0.get(k) != st1.get(k)}
    mon.require("settings", not ch, ch, "a process-wide setting has changed")
    mon.require("settings", str(jnp.asarray(0.5).dtype) == ("float64" if env.x64 else "float32"), {}, "the default precision has changed")


def quiet(mon, env, adx):
    """Plain calls on valid arguments: no output, no files, warning filters as before."""
    rng, F = env.rng, env.dtype
    fns = [fn for i, (nm, fn) in enumerate(T.TABLE.items()) if (2 if nm in SLOW else i % 2) == env.part]
    for fn in fns:
        n = 24 if fn.name not in SLOW else 6
        inp = fn.make(rng, n, F)
        filters, cwd = list(warnings.filters), sorted(os.listdir("."))
        err, out = io.StringIO(), io.StringIO()
        old = sys.stderr, sys.stdout
        sys.stderr, sys.stdout = err, out
        try:
            for i in range(n):
                mon.call("settings", fn.get(adx), *[inp[q][i] for q in fn.names], witness=dict(function=fn.name))
        finally:
            sys.stderr, sys.stdout = old
        w = dict(function=fn.name, out=out.getvalue()[:300], err=err.getvalue()[:300])
        mon.require("settings", not out.getvalue(), w, "calls print nothing", regime=fn.name)
        # (warnings of the compiler or of NumPy go to the error output as well)
        own = [x for x in err.getvalue().splitlines() if x.strip() and "Warning" not in x and not x.startswith(("  ", "W0", "I0", "E0"))]
        mon.require("settings", not own, w, "calls print nothing", regime=fn.name)
        mon.require("settings", filters == list(warnings.filters), dict(function=fn.name), "a call changes the warning filters", regime=fn.name)
        mon.require("settings", cwd == sorted(os.listdir(".")), dict(function=fn.name), "a call creates files", regime=fn.name)


def reused(mon, env, adx):
    """A caller that works in place: the same array objects (and the same argument dictionary) with
    new contents.  And calls that differ by a few parts in 1e5 only, one after the other."""
    import jax
    import jax.numpy as jnp

    rng, F = env.rng, env.dtype
    fns = [fn for i, (nm, fn) in enumerate(T.TABLE.items()) if (2 if nm in SLOW else i % 2) == env.part]

    def run1(fn, a):
        ok, out = mon.call("reused", fn.get(adx), *a, witness=dict(function=fn.name))
        return digest(out) if ok else None

    for fn in fns:
        for _ in range(env.n(2, 10)):
            inp = fn.make(rng, 4, F)
            A = [np.array(inp[q][0]) for q in fn.names]
            B = [np.array(inp[q][1]) for q in fn.names]
            want = run1(fn, [np.array(b) for b in B])
            run1(fn, A)
            for a, b in zip(A, B):
                a[...] = b
            now = run1(fn, A)
            mon.require("reused", want == now, dict(function=fn.name, fresh=want, reused=now), "arrays with new contents give the result of the old ones", regime=fn.name)
        # near twins, as arrays and as Python numbers
        if not (fn.style == "ew" and fn.smooth and not fn.multi):
            continue
        for k in range(env.n(6, 30)):
            inp = fn.make(rng, 4, F) if k % 2 or fn.name in T.CONSISTENT else T.lattice_values(fn, rng, 12, F)
            if not len(inp[fn.names[0]]):
                continue
            B = [np.array(inp[q][0]) for q in fn.names]
            near = F(1 + 10 ** rng.uniform(-9, -3)) if env.x64 else F(1 + 10 ** rng.uniform(-5, -2.5))
            twin = [np.asarray(x * near) if q != "e" else x for q, x in zip(fn.names, B)]
            conv = (lambda x: x, lambda x: float(x) if x.ndim == 0 else x, jnp.asarray)[k % 3]
            run1(fn, [conv(b) for b in B])
            got = mon.call("reused", fn.get(adx), *[conv(x) for x in twin], witness=dict(function=fn.name))
            if got[0]:
                row = {q: twin[j].reshape((1,) + twin[j].shape).astype(F) for j, q in enumerate(fn.names)}
                o = np.asarray(got[1])
                judge_table(mon, env, "reused", fn, row, [o.reshape(1) if fn.outs[0][0] in ("V", "A", "s", "a") else o.reshape((1,) + o.shape)], label=fn.name)
    if env.part != 2:
        return
    G, P = adx.gravity, adx.prop
    import diffrax

    for f, key in ((G.point_mass_grav, "mu"), (G.j2_acc, "J2"), (G.j2_acc, "R_eq"), (G.j3_acc, "J3"), (G.j3_acc, "mu"), (G.j4_acc, "J4"), (G.j4_acc, "R_eq"), (adx.events.radius_islow, "rmin")):
        for typ in (float, F, jnp.asarray):
            d = {k: typ(v) for k, v in {"mu": 1.5, "J2": 1e-2, "J3": 1e-2, "J4": 1e-2, "R_eq": 1.0, "rmin": 0.5}.items()}
            x = rng.normal(size=6).astype(F)
            mon.call("reused", f, 0.0, x, d)
            d[key] = typ(0.75)
            ok, got = mon.call("reused", f, 0.0, x, d)
            ok2, want = mon.call("reused", f, 0.0, np.array(x), dict(d))
            if ok and ok2:
                mon.require("reused", digest(got) == digest(want), dict(function=f.__name__, key=key), "an edited argument dictionary gives the result of the old one", regime=f.__name__)
            x[:3] *= F(1.25)
            ok, got = mon.call("reused", f, 0.0, x, d)
            ok2, want = mon.call("reused", f, 0.0, np.array(x), dict(d))
            if ok and ok2:
                mon.require("reused", digest(got) == digest(want), dict(function=f.__name__), "an array with new contents gives the result of the old one", regime=f.__name__)

    def field(t, x, args):
        return jnp.concatenate([x[3:], G.point_mass_grav(t, x, args)])

    d = {"mu": 1.0, "rmin": 0.2}
    x = np.array([1, 0, 0, 0, 1, 0.1], F)
    ts = np.array([0.2, 0.5, 0.9], F)
    od = P.OrbDynx(diffrax.ODETerm(field), d, diffrax.Event(adx.events.radius_islow))
    for nm, f in (
        ("to_final", lambda o, y, q: P.to_final(o, y, 1.0)),
        ("adaptive_steps", lambda o, y, q: P.adaptive_steps(o, y, 1.0, max_steps=128)),
        ("fixed_steps", lambda o, y, q: P.fixed_steps(o, y, 1.0, 0.1, max_steps=32)),
        ("custom_steps", lambda o, y, q: P.custom_steps(o, y, 1.0, q)),
        ("cowell_method", lambda o, y, q: P.cowell_method(o, y, 1.0, diffrax.SaveAt(ts=q), dt0=0.1)),
    ):
        for mu, v, t in ((1.0, 1.0, 0.5), (1.3, 1.0, 0.5), (1.3, 0.9, 0.5), (1.3, 0.9, 0.4)):
            d["mu"], x[4], ts[1] = mu, v, t
            ok, got = mon.call("reused", f, od, x, ts, witness=dict(mode=nm))
            fresh = P.OrbDynx(diffrax.ODETerm(field), dict(d), diffrax.Event(adx.events.radius_islow))
            ok2, want = mon.call("reused", f, fresh, np.array(x), np.array(ts), witness=dict(mode=nm))
            if ok and ok2:
                mon.require("reused", digest(leaves_of(nm, got)) == digest(leaves_of(nm, want)), dict(mode=nm, mu=mu, v=v, t=t), "dynamics edited between two calls are propagated as before the edit", regime=nm)


def snapshot_defaults(adx):
    out = {}
    for modname in ("", "twobody", "gravity", "events", "utils", "prop"):
        m = getattr(adx, modname) if modname else adx
        for nm in getattr(m, "__all__", []):
            f = getattr(m, nm)
            if inspect.isfunction(f) or (callable(f) and not inspect.isclass(f) and not isinstance(f, types.ModuleType)):
                try:
                    sig = inspect.signature(f)
                except (TypeError, ValueError):
                    continue
                out[f"{modname}.{nm}"] = [repr(p.default)[:300] for p in sig.parameters.values()]
    out["OrbDynx"] = [repr(adx.prop.OrbDynx(None).args), repr(adx.prop.OrbDynx(None).event)]
    return out


def arguments(mon, env, adx, table):
    import diffrax
    import jax
    import jax.numpy as jnp

    rng, F = env.rng, env.dtype
    for fn in table:
        inp = fn.make(rng, 4, F)
        for lab, mk in (("numpy", lambda x: np.array(x)), ("readonly", None), ("jax", jnp.asarray)):
            if lab == "readonly":
                def mk(x):
                    y = np.array(x)
                    y.flags.writeable = False
                    return y
            forms = [("row", [inp[q][0] for q in fn.names], fn.get(adx))]
            if fn.style == "ew":
                forms.append(("batch", fn.shape_args(inp), fn.batched(adx)))
            for form, vals, f in forms:
                if fn.name in SLOW and lab == "readonly" and not env.thorough:
                    continue
                a = [mk(x) for x in vals]
                keep = [np.array(x) for x in vals]
                w = dict(function=fn.name, form=form, type=lab)
                ok, out = mon.call("arguments", f, *a, witness=w)
                if not ok:
                    continue
                try:
                    same = all(np.array_equal(np.asarray(x), k, equal_nan=True) and np.asarray(x).dtype == k.dtype and np.asarray(x).shape == k.shape for x, k in zip(a, keep))
                except RuntimeError as ex:  # deleted buffer
                    mon.require("arguments", False, dict(w, error=str(ex)[:200]), "an argument was deleted")
                    continue
                mon.require("arguments", same, dict(w, before=keep, after=a), "an argument was changed")
                if lab == "numpy":
                    # a result must not be a window into the caller's arrays
                    leaves = [np.array(o) for o in jax.tree_util.tree_leaves(out)]
                    for x in a:
                        if isinstance(x, np.ndarray) and x.ndim:
                            x[...] = 0
                    now = [np.asarray(o) for o in jax.tree_util.tree_leaves(out)]
                    mon.require("arguments", all(np.array_equal(p, q, equal_nan=True) for p, q in zip(leaves, now)), w, "a result changes with the caller's array")
    if env.part != 2:
        return
    G, P = adx.gravity, adx.prop
    for f, d in ((G.point_mass_grav, {"mu": 1.5}), (G.j2_acc, {"mu": 1.5, "J2": 1e-3, "R_eq": 1.0}), (G.j3_acc, {"mu": 1.5, "J3": 1e-3, "R_eq": 1.0}), (G.j4_acc, {"mu": 1.5, "J4": 1e-3, "R_eq": 1.0}), (adx.events.radius_islow, {"rmin": 0.5})):
        x = rng.normal(size=6).astype(F)
        x0, d0 = x.copy(), copy.deepcopy(d)
        ok, _ = mon.call("arguments", f, 0.0, x, d, witness=dict(function=f.__name__))
        mon.require("arguments", np.array_equal(x, x0) and d == d0 and list(d) == list(d0), dict(function=f.__name__, before=d0, after=d), "an argument was changed")

    def field(t, x, args):
        return jnp.concatenate([x[3:], G.point_mass_grav(t, x, args)])

    tm = diffrax.ODETerm(field)
    for with_event, back in ((False, 1), (True, 1), (True, -1), (False, -1)):
        d = {"mu": 1.0, "rmin": np.asarray(0.1, F), "extra": [1.0, {"k": 2.0}]}
        d0 = copy.deepcopy(d)
        od = P.OrbDynx(tm, d, diffrax.Event(adx.events.radius_islow) if with_event else None)
        x = np.array([1, 0, 0, 0, 1, 0.1], F)
        ts = np.array([0.2, 0.4, 1.0], F) * F(back)
        t1 = np.array(back, F)
        x0, ts0 = x.copy(), ts.copy()
        for nm, f in (
            ("to_final", lambda: P.to_final(od, x, t1)),
            ("adaptive_steps", lambda: P.adaptive_steps(od, x, t1, max_steps=128)),
            ("fixed_steps", lambda: P.fixed_steps(od, x, t1, 0.1 * back, max_steps=32)),
            ("custom_steps", lambda: P.custom_steps(od, x, t1, ts)),
            ("cowell_method", lambda: P.cowell_method(od, x, t1, diffrax.SaveAt(ts=ts), dt0=0.1 * back)),
        ):
            ev0 = od.event
            ok, s = mon.call("arguments", f, witness=dict(mode=nm))
            mon.require("arguments", repr(d) == repr(d0) and od.args is d and od.terms is tm and od.event is ev0, dict(mode=nm, before=repr(d0), after=repr(d)), "the dynamics were changed")
            mon.require("arguments", np.array_equal(x, x0) and np.array_equal(ts, ts0) and float(t1) == back, dict(mode=nm), "an argument was changed")


def threads(mon, env, pool):
    """The same pool from several threads at once, each in its own order."""
    rng = env.rng
    nth = 4 if not env.thorough else 8
    take = [e for e in pool if e[0] in base_cache]
    if not env.thorough:
        take = [take[i] for i in rng.permutation(len(take))[:40]]
    orders = [rng.permutation(len(take)) for _ in range(nth)]
    seen, errs = [[] for _ in range(nth)], []
    gate = threading.Barrier(nth)
    active, worst = [0], [0]

    def work(k):
        try:
            gate.wait(60)
            for i in orders[k]:
                active[0] += 1
                worst[0] = max(worst[0], active[0])
                try:
                    seen[k].append((take[i][0], evaluate(take[i])))
                finally:
                    active[0] -= 1
        except Exception as ex:  # noqa: BLE001
            errs.append((type(ex).__name__ + ": " + str(ex)[:300], take[i][0] if len(take) else ""))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        mon.beat("threads")
        ths = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(nth)]
        for t in ths:
            t.start()
        for t in ths:
            t.join(240 if not env.thorough else 2000)
        mon.idle()
    finally:
        sys.setswitchinterval(old)
    mon.require("threads", not errs, dict(errors=errs), "a call from a thread raised")
    mon.require("threads", not any(t.is_alive() for t in ths), {}, "a thread did not finish")
    mon.notes.append(f"threads: {nth}, largest number of overlapping calls seen {worst[0]}")
    for k in range(nth):
        for label, d in seen[k]:
            mon.require("threads", d == base_cache[label], dict(call=label, thread=k, first=base_cache[label], now=d), "the same call returns something else from a thread", regime=label.split(":")[0])


if __name__ == "__main__":
    child_main()
