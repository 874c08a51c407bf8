#!/bin/bash
# Nothing to build: the monitors are Python and load /repo's sources directly. Checks the tools.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu
exec "${VMON_PYTHON:-/opt/venv/bin/python}" -c "
import jax, diffrax, numpy, scipy
from vmon.specs import SPECS
assert numpy.finfo(numpy.longdouble).eps < 1e-18, 'no extended precision'
print('ok', len(SPECS), 'specifications')"
