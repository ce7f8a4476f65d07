#!/bin/bash
# Nothing is built: the checks import /repo's Python code directly.  This only checks that the tools are there.
set -e
cd "$(dirname "$0")"
PYTHONPATH=harness /opt/venv/bin/python -c 'import numpy, pandas, yaml, common'
mkdir -p evidence
