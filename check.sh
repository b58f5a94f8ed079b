#!/bin/bash
# check.sh <property> [tier]
cd "$(dirname "$0")" && exec /opt/venv/bin/python -W ignore check.py "$@"
