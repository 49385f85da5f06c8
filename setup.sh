#!/bin/bash
# Nothing needs to be built ahead: every check rebuilds from /repo's working tree.
set -e
cd "$(dirname "$0")"
command -v python3-vt >/dev/null
python3-vt -c 'import z3'
echo "setup ok"
