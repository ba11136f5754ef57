#!/bin/bash
# Nothing to compile: verify that the interpreter and the code under test import.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python -c "import vlib.loader, vlib.client, vlib.runner; print('ok')"
