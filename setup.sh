#!/bin/bash
# Everything is compiled by the checks themselves from /repo's current tree; this only verifies that the tools are there.
set -e
cd "$(dirname "$0")"
command -v clang gcc python3 >/dev/null
mkdir -p evidence
python3 run_check.py --list >/dev/null
echo "setup ok"
