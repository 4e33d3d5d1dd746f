#!/bin/bash
# nothing to build in advance: every check extracts and compiles from /repo's working tree; this only checks the tools are there
set -e
cd "$(dirname "$0")"
mkdir -p evidence
command -v clang++ >/dev/null; command -v g++ >/dev/null
/opt/veriftools/pyvenv/bin/python3 -c 'import z3; print("z3", z3.get_version_string())'
