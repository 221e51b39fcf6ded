#!/bin/bash
# exit 0 when the property holds on this input, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd)
export JYTHONPATH=/opt/jylib:$PWD LC_ALL=C.UTF-8
scratch=$(mktemp -d) || exit 9
trap 'rm -rf "$scratch"' EXIT
export SCRATCH=$scratch
timeout 250 jython -B "$here/demo.py"
