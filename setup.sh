#!/bin/bash
# Nothing to build: the monitors are pure Python. Checks that the interpreter and the library can be used.
cd "$(dirname "$0")"
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import vf, numpy, joblib; print('stochopy', vf.stochopy.__version__, 'numpy', numpy.__version__)"
