#!/bin/bash
# Nothing to compile: check that the interpreter, the libraries and the code under test are importable.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 HOME=/root
cd "$here" || exit 2
mkdir -p evidence/replays
/opt/venv/bin/python - <<'PY'
import sys
sys.path.insert(0, "lib")
import vlib, hypothesis, numpy, yaml
import flee.flee
print("setup ok: hypothesis", hypothesis.__version__, "flee from", flee.flee.__file__)
PY
