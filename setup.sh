#!/bin/sh
# nothing to build: the checks import /repo/src directly
cd "$(dirname "$0")" || exit 3
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 python3-vt -c "import z3, jsonschema; print(z3.get_version_string())"
