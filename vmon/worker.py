"""Runs one property's workload in one mode: python -m vmon.worker PROP MODE SEED TIER OUT HEARTBEAT"""

import importlib
import json
import os
import sys
import time
import traceback


def main():
    prop, mode, seed, tier, out, hb = sys.argv[1:7]
    t0 = time.time()
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    from .core import Monitor, Stop
    from .env import Env, load

    mon = Monitor(prop, mode, int(seed), tier, heartbeat=hb)
    mon.idle()
    res = {"error": None}
    try:
        mod = importlib.import_module(f"vmon.props.{prop.lower()}")
        adx = load(mode)
        env = Env(mode, int(seed), tier, prop)
        try:
            mod.run(mon, env, adx)
        except Stop:
            pass
        except Exception as ex:  # noqa: BLE001
            # The code under test answered, but with something the monitors cannot take as a
            # result (wrong structure, shape, type): an observed violation, not a harness error.
            if not mon.calls:
                raise
            tb = traceback.format_exc()
            try:
                mon.violate("unusable-result", f"{type(ex).__name__}: {str(ex)[:200]}", tb[-1500:])
            except Stop:
                pass
    except BaseException:  # noqa: BLE001
        res["error"] = traceback.format_exc()
    res.update(mon.result())
    res["wall_s"] = time.time() - t0
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(out + ".tmp", out)
    mon.idle()
    sys.stdout.flush()
    os._exit(0)


main()
