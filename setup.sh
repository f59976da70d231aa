#!/bin/bash
# nothing to build: the checks import /repo's working tree directly; this only confirms the tools are there
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python - <<'P'
import sys
sys.dont_write_bytecode = True
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import hypothesis, h5py, numpy, pydantic
print("hypothesis", hypothesis.__version__, "h5py", h5py.__version__, "numpy", numpy.__version__)
P
