#!/bin/bash
# check.sh PROP [quick|thorough]   or   check.sh --replay evidence/PROP.replay.json
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu
exec "${VMON_PYTHON:-/opt/venv/bin/python}" -m vmon.main "$@"
