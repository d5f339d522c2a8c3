#!/bin/bash
# check.sh <PROPERTY-ID> [options] -- decide one property symbolically on /repo's working tree
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -m symtex.run "$@"
