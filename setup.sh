#!/bin/sh
# nothing to build in advance: checks import /repo/pyee directly
set -e
test -x /opt/venv/bin/python
mkdir -p "$(dirname "$0")/evidence"
