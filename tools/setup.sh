#!/bin/sh
# nothing to build: the checks read /repo's sources; verify that the tools are there
cd "$(dirname "$0")/.." && mkdir -p evidence && . tools/env.sh && python3-vt -c 'import z3, engine.verify; print("z3", z3.get_version_string())'
