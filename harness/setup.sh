#!/bin/bash
# Nothing to build: the checks run TLC and the Python sources in place. Confirms the tools are there.
set -e
cd "$(dirname "$0")"
command -v java >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -c 'import pandas, mip, xmltodict'
python3-vt -c 'import scipy'
echo setup ok
