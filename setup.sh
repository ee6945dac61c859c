#!/bin/bash
# Nothing to build: checks import /repo at run time. Verify that the tools are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
exec /opt/venv/bin/python -c "import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3, numpy, scipy, sklearn; print('z3', z3.get_version_string())"
