#!/bin/bash
# Nothing is built ahead of time: each check builds its driver from /repo's working tree.
# This only verifies that the tools the checks use are present.
set -e
command -v g++ java python3 >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
echo "tools present"
