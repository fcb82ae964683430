#!/bin/sh
# Nothing to install: checks build what they need from /repo. This only verifies that the tools are there.
set -e
test -x /opt/veriftools/go1.24.13/bin/go
test -f /opt/veriftools/tla/tla2tools.jar
java -version 2>/dev/null
python3 -c 'import json'
mkdir -p "$(dirname "$0")/evidence"
