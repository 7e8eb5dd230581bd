#!/bin/bash
# Nothing to compile: confirm that the interpreter, the solver and the code under test load.
cd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=.:/repo /opt/venv/bin/python -c "
from symx import runner, engine
import harmonic_inference.utils.harmonic_utils
x = engine.z3.Int('x'); s = engine.z3.Solver(); s.add(x > 1, x < 3); assert s.check() == engine.z3.sat
print('ok', engine.z3.get_version_string())"
