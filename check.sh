#!/bin/sh
# check.sh Cxx [--thorough]
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 exec python3-vt run.py "$@"
