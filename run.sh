#!/bin/sh
# run.sh ID: the check of one property
cd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 exec python3-vt check.py "$1"
