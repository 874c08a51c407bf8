"""python -m vmon.main PROP [quick|thorough]     decides one property; see DESIGN.md

Exit 0: held on everything observed.  Exit 1 + VIOLATION line: violated.  Exit 2: inconclusive
(monitor not reached, harness error, watchdog without evidence of a spin in the code under test).
"""

import json
import os
import subprocess
import sys
import tempfile
import time

from .core import pid_cpu_seconds

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("VMON_PYTHON", "/opt/venv/bin/python")

# A single call into the code under test that burns this much CPU time is a spin: the largest
# legitimate call of any workload needs well under a tenth of it.
SPIN_CPU_S = {"quick": 150.0, "thorough": 600.0}
WALL_S = {"quick": 840.0, "thorough": 7200.0}


def load_known(prop):
    out = {}
    path = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            rec = json.loads(line)
            if rec.get("property") == prop and rec.get("status") == "known":
                out[rec["key"]] = rec
    return out


def run_workers(prop, modes, seed, tier, tmp, spin):
    procs = {}
    env = dict(os.environ)
    env["PYTHONPATH"] = HERE
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["JAX_PLATFORMS"] = "cpu"
    env.pop("JAX_ENABLE_X64", None)
    env.pop("JAX_DEBUG_NANS", None)
    for mode in modes:
        out = os.path.join(tmp, f"{mode}.json")
        hb = os.path.join(tmp, f"{mode}.hb")
        log = open(os.path.join(tmp, f"{mode}.log"), "w")
        p = subprocess.Popen(
            [PY, "-m", "vmon.worker", prop, mode, str(seed), tier, out, hb],
            cwd=HERE, env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True,
        )
        procs[mode] = dict(p=p, out=out, hb=hb, log=log.name, beat=None, cpu0=0.0, spin=None, late=False)
    t0 = time.time()
    while True:
        alive = False
        for mode, d in procs.items():
            if d["p"].poll() is not None:
                continue
            alive = True
            try:
                beat = open(d["hb"]).read()
            except OSError:
                beat = ""
            cpu = pid_cpu_seconds(d["p"].pid)
            if beat != d["beat"]:
                d["beat"], d["cpu0"] = beat, cpu
            elif beat and not beat.startswith("idle") and cpu - d["cpu0"] > spin:
                d["spin"] = beat
                d["p"].kill()
            if time.time() - t0 > WALL_S[tier]:
                d["late"] = True
                d["p"].kill()
        if not alive:
            break
        time.sleep(0.2)
    for d in procs.values():
        d["p"].wait()
    return procs


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    if prop == "--replay":
        replay = json.load(open(sys.argv[2]))
        prop, seed, tier = replay["property"], replay["seed"], replay["tier"]
    t0 = time.time()
    stale = os.path.join(HERE, "evidence", f"{prop}.replay.json")
    if replay is None and os.path.exists(stale):
        os.remove(stale)
    sys.path.insert(0, HERE)
    from .specs import SPECS

    spec = SPECS[prop]
    modes = spec["modes"]
    spin = spec.get("spin") or SPIN_CPU_S[tier]
    with tempfile.TemporaryDirectory(prefix="vmon_") as tmp:
        procs = run_workers(prop, modes, seed, tier, tmp, spin)
        results, violations, errors = {}, [], []
        for mode, d in procs.items():
            if d["spin"]:
                violations.append(
                    dict(monitor="bounded-progress", mode=mode,
                         what=f"call did not return after {spin:.0f} CPU seconds",
                         witness=d["spin"][:2000])
                )
                continue
            if d["late"] or not os.path.exists(d["out"]):
                tail = open(d["log"]).read()[-2000:]
                errors.append(f"{mode}: worker ended without a result (exit {d['p'].returncode}, late={d['late']})\n{tail}")
                continue
            results[mode] = json.load(open(d["out"]))
            if results[mode]["error"]:
                errors.append(f"{mode}: {results[mode]['error']}")
            violations += results[mode]["violations"]
    # merge
    monitors, regimes, samples, known = {}, set(), [], {}
    distinct = calls = 0
    for mode, r in results.items():
        for k, v in r["monitors"].items():
            m = monitors.setdefault(k, {"observed": 0, "violated": 0, "worst_ratio": 0.0})
            m["observed"] += v["observed"]
            m["violated"] += v["violated"]
            m["worst_ratio"] = max(m["worst_ratio"], v["worst"])
        regimes |= {f"{mode}|{x}" for x in r["regimes"]}
        samples += r["samples"]
        distinct += r["distinct"]
        calls += r["calls"]
        for k, v in r["known"].items():
            kk = known.setdefault(k, {"count": 0, "example": v["example"]})
            kk["count"] += v["count"]
    listed = load_known(prop)
    for k, v in known.items():
        if k not in listed:
            violations.append(dict(monitor="known-finding:" + k, mode="", what="not listed in known_findings.jsonl", witness=v["example"]))
    missing = [] if violations else [m for m in spec["monitors"] if monitors.get(m, {}).get("observed", 0) == 0]
    evaluations = sum(m["observed"] for m in monitors.values())
    # one sample per monitor
    seen, pick = set(), []
    for s in samples:
        if s["monitor"] not in seen or len(pick) < 6:
            seen.add(s["monitor"])
            pick.append(s)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": spec["rule"],
            "samples": pick[:24],
            "calls_into_code_under_test": calls,
            "monitors": monitors,
            "regimes_observed": len(regimes),
            "regime_labels": sorted(regimes)[:200],
            "modes": {m: {"wall_s": round(r["wall_s"], 2), "calls": r["calls"], "notes": r["notes"]} for m, r in results.items()},
            "known_findings_observed": known,
            "monitors_not_reached": missing,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    for k in known:
        if k in listed:
            print(f"KNOWN-FINDING: property={prop} {listed[k]['what']} ({known[k]['count']} events)")
    print(
        f"{prop} {tier} seed={seed}: {evaluations} events judged, {distinct} distinct, {calls} calls, "
        f"{len(regimes)} regimes, {len(violations)} violations, {evidence['wall_s']} s"
    )
    for k, m in sorted(monitors.items()):
        print(f"   {k}: observed {m['observed']} violated {m['violated']} worst error/allowed {m['worst_ratio']:.3g}")
    if violations:
        path = os.path.join("evidence", f"{prop}.replay.json")
        with open(os.path.join(HERE, path), "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, "violations": violations}, f, indent=1)
        for v in violations[:6]:
            print(f"  {v['monitor']} [{v['mode']}]: {v['what']}\n     witness {json.dumps(v['witness'])[:600]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("HARNESS ERROR\n" + "\n".join(errors))
        return 2
    if missing or not results:
        print("INCONCLUSIVE: monitors not reached: " + ", ".join(missing))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
