#!/bin/bash
# Nothing is installed: every check builds what it needs in a scratch folder.
set -e
cd "$(dirname "$0")"
test -f /opt/veriftools/tla/tla2tools.jar
command -v java g++ cmake ninja python3 >/dev/null
mkdir -p evidence
