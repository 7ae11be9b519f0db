#!/bin/sh
# Nothing to build: the verifier is Python; check that its parts are there.
cd "$(dirname "$0")" && mkdir -p evidence && PYTHONDONTWRITEBYTECODE=1 python3-vt -c "import z3, pyvc.contract" && /opt/venv/bin/python -c "import yaml"
