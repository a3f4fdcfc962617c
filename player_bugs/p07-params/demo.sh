#!/bin/bash
# cwd: the tree under test
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$d"
exec /opt/venv/bin/python -W ignore "$d/demo.py"
