#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
NUMBA_CACHE_DIR=$(mktemp -d); export NUMBA_CACHE_DIR
trap '/bin/rm -r "$NUMBA_CACHE_DIR"' EXIT
NUMBA_DISABLE_JIT=1 /opt/venv/bin/python -W ignore "$here/demo.py"
