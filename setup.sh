#!/bin/bash
# nothing to build: the encoding is regenerated from /repo on every run. Checks that the tools are there.
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence
/opt/venv/bin/python - <<'P'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3, pydantic
print("python", sys.version.split()[0], "z3", z3.get_version_string())
P
