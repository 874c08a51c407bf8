"""Monitor: records every observed event, judges it against an oracle, keeps the evidence."""

import hashlib
import json
import os
import time
import traceback

import numpy as np

LD = np.longdouble


class Stop(Exception):
    """Raised to leave a workload early once enough violations have been recorded."""


def jsonable(x, limit=64):
    if isinstance(x, dict):
        return {str(k): jsonable(v, limit) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, limit) for v in list(x)[:limit]]
    if isinstance(x, (str, bool, int)) or x is None:
        return x
    try:
        a = np.asarray(x)
        if a.dtype == object:
            return repr(x)[:200]
        if a.dtype == LD:
            a = a.astype(np.float64)
        flat = a.reshape(-1)
        if flat.size > limit:
            return {"shape": list(a.shape), "head": jsonable(flat[:limit], limit)}
        out = a.tolist()

        def fix(v):
            if isinstance(v, list):
                return [fix(w) for w in v]
            if isinstance(v, float) and not np.isfinite(v):
                return repr(v)
            if isinstance(v, complex):
                return repr(v)
            return v

        return fix(out)
    except Exception:
        return repr(x)[:200]


class Monitor:
    """One per worker process.

    Verdicts are three-valued: every `judge` call is an observation that either held or was
    violated; a monitor that a check requires but that observed nothing makes it inconclusive.
    """

    def __init__(self, prop, mode, seed, tier, heartbeat=None, only=None):
        self.prop, self.mode, self.seed, self.tier = prop, mode, seed, tier
        self.heartbeat = heartbeat
        self.only = only
        self.t0 = time.time()
        self.monitors = {}
        self.violations = []
        self.known_hits = {}
        self.samples = []
        self.regimes = set()
        self.distinct = set()
        self.calls = 0
        self.notes = []
        self.max_violations = 12

    # ---------------------------------------------------------------- events
    def beat(self, what):
        if self.heartbeat:
            with open(self.heartbeat, "w") as f:
                f.write(f"{time.time()}\n{what}\n")

    def idle(self):
        """The harness, not the code under test, is running."""
        if self.heartbeat:
            with open(self.heartbeat, "w") as f:
                f.write("idle\n")

    def call(self, name, fn, *args, witness=None, expect=None, **kw):
        """Runs the code under test; an exception on valid input is an observed violation.

        `expect`: exception types that are the required outcome for this event (the value is
        then the exception).  Returns (ok, value).
        """
        import jax

        self.calls += 1
        self.beat(name + " " + json.dumps(jsonable(witness if witness is not None else args, 8))[:1500])
        try:
            out = fn(*args, **kw)
            out = jax.block_until_ready(out)
        except Exception as ex:  # noqa: BLE001
            self.idle()
            if expect is not None and isinstance(ex, expect):
                return True, ex
            self.violate(
                name,
                "raised " + type(ex).__name__ + ": " + str(ex)[:300],
                witness if witness is not None else {"args": args, "kw": kw},
                tb=traceback.format_exc()[-1500:],
            )
            return False, None
        self.idle()
        return True, out

    def violate(self, monitor, what, witness, **extra):
        rec = self.monitors.setdefault(monitor, {"observed": 0, "violated": 0, "worst": 0.0})
        rec["violated"] += 1
        self.violations.append(
            dict(
                monitor=monitor,
                mode=self.mode,
                what=what,
                witness=jsonable(witness),
                **{k: jsonable(v) for k, v in extra.items()},
            )
        )
        if len(self.violations) >= self.max_violations:
            raise Stop()

    def known(self, key, what):
        rec = self.known_hits.setdefault(key, {"count": 0, "example": what})
        rec["count"] += 1

    def judge(self, monitor, err, tol, inputs, regime=None, known=None, trivial=None):
        """Observes a batch: err[i] <= tol[i] must hold for each event i (NaN never holds).

        inputs: dict of arrays whose first axis is the event axis (used for witnesses and for
        counting distinct events).  regime: array/list of labels per event.  known: dict
        key -> boolean mask of events that belong to a listed known finding.  trivial: mask of
        events that hold for trivial reasons and are not counted as distinct/non-trivial.
        """
        err = np.atleast_1d(np.asarray(err, dtype=LD))
        # gradual or sudden underflow is not an error: absolute floor of a few smallest normal numbers
        tiny = np.finfo(np.float32 if str(self.mode).startswith("f32") else np.float64).tiny
        tol = np.broadcast_to(np.asarray(tol, dtype=LD) + 16 * LD(tiny), err.shape)
        n = err.shape[0]
        rec = self.monitors.setdefault(monitor, {"observed": 0, "violated": 0, "worst": 0.0})
        rec["observed"] += int(n)
        with np.errstate(all="ignore"):
            bad = ~(err <= tol)
            ratio = np.where(tol > 0, err / np.where(tol > 0, tol, 1), np.where(err > 0, np.inf, 0))
        for key, mask in (known or {}).items():
            m = bad & np.asarray(mask)
            if m.any():
                i = int(np.nonzero(m)[0][0])
                rk = self.known_hits.setdefault(
                    key, {"count": 0, "example": jsonable(_row(inputs, i))}
                )
                rk["count"] += int(m.sum())
                bad = bad & ~m
                ratio = np.where(m, 0, ratio)
        good = ratio[~bad & np.isfinite(ratio)]
        if good.size and os.environ.get("VMON_DEBUG") and float(good.max()) > float(os.environ["VMON_DEBUG"]):
            i = int(np.nanargmax(np.where(~bad & np.isfinite(ratio), ratio, -1)))
            lab = regime if regime is None or isinstance(regime, str) else np.asarray(regime)[i]
            print(f"DEBUG {self.mode} {monitor} ratio {float(ratio[i]):.3g} {lab} {json.dumps(jsonable(_row(inputs, i)))[:400]}", flush=True)
        if good.size:
            rec["worst"] = max(rec["worst"], float(good.max()))
        # distinct events
        triv = np.zeros(n, bool) if trivial is None else np.broadcast_to(np.asarray(trivial), (n,))
        cols = [np.asarray(v) for v in inputs.values() if np.ndim(v) >= 1 and np.shape(v)[0] == n]
        if cols:
            flat = np.concatenate(
                [c.reshape(n, -1).astype(np.float64) for c in cols], axis=1
            ) if n else np.zeros((0, 1))
            flat = np.ascontiguousarray(flat)
            for i in np.nonzero(~triv)[0]:
                self.distinct.add(hash((monitor, flat[i].tobytes())))
        else:
            self.distinct.add(hash((monitor, json.dumps(jsonable(inputs)))))
        if regime is not None:
            if isinstance(regime, str):
                self.regimes.add(f"{monitor}|{regime}")
            else:
                for lab in np.unique(np.asarray(regime)):
                    self.regimes.add(f"{monitor}|{lab}")
        if n and len(self.samples) < 40 and rec["observed"] <= 3 * n:
            i = n // 2
            self.samples.append(
                {
                    "monitor": monitor,
                    "mode": self.mode,
                    "inputs": jsonable(_row(inputs, i), 12),
                    "observed_error": float(err[i]),
                    "allowed": float(tol[i]),
                }
            )
        if bad.any():
            idx = np.nonzero(bad)[0]
            with np.errstate(all="ignore"):
                order = idx[np.argsort(-np.nan_to_num(ratio[idx].astype(np.float64), nan=1e300, posinf=1e300))]
            rec["violated"] += int(bad.sum()) - 1
            i = int(order[0])
            self.violate(
                monitor,
                f"{int(bad.sum())} of {n} events violate; worst error {float(err[i]):.6g} > allowed {float(tol[i]):.6g}",
                _row(inputs, i),
                regime=None if regime is None else (regime if isinstance(regime, str) else str(np.asarray(regime)[i])),
            )
            return False
        return True

    def require(self, monitor, cond, witness, what="condition does not hold", regime=None):
        """Observes one event with a boolean verdict."""
        rec = self.monitors.setdefault(monitor, {"observed": 0, "violated": 0, "worst": 0.0})
        rec["observed"] += 1
        self.distinct.add(hash((monitor, json.dumps(jsonable(witness, 16), sort_keys=True)[:4000])))
        if regime is not None:
            self.regimes.add(f"{monitor}|{regime}")
        if len(self.samples) < 40 and rec["observed"] <= 2:
            self.samples.append({"monitor": monitor, "mode": self.mode, "inputs": jsonable(witness, 12), "held": bool(cond)})
        if not bool(cond):
            self.violate(monitor, what, witness, regime=regime)
            return False
        return True

    def result(self):
        return {
            "mode": self.mode,
            "monitors": self.monitors,
            "violations": self.violations,
            "known": self.known_hits,
            "samples": self.samples,
            "regimes": sorted(self.regimes),
            "distinct": len(self.distinct),
            "calls": self.calls,
            "notes": self.notes,
            "wall_s": time.time() - self.t0,
        }


def _row(inputs, i):
    out = {}
    for k, v in inputs.items():
        a = v if isinstance(v, (str, int, float)) else np.asarray(v)
        if isinstance(a, np.ndarray) and a.ndim >= 1 and a.shape[0] > i:
            out[k] = a[i]
        else:
            out[k] = a
    return out


def sub_seed(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], "little")


def pid_cpu_seconds(pid):
    """User+system CPU seconds of a process (all threads)."""
    try:
        with open(f"/proc/{pid}/stat") as f:
            s = f.read()
        parts = s.rsplit(")", 1)[1].split()
        return (int(parts[11]) + int(parts[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return 0.0
