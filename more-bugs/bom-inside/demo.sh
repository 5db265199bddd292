#!/bin/sh
# exit 0: the property holds here; 1: it does not
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$(pwd)"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
