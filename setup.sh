#!/bin/bash
# Nothing to build besides the repository's own extension: specs are run by TLC, harness is Python.
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. /opt/vp/env.sh
build_ext >/dev/null 2>&1 || exit 1
cd "$HERE" && mkdir -p evidence
java -cp /opt/veriftools/tla/tla2tools.jar tlc2.TLC -h >/dev/null 2>&1
exit 0
