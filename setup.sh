#!/bin/bash
# Checks that the tools the framework needs are there; every check builds what it needs itself.
set -e
cd "$(dirname "$0")"
python3 -c 'import json; json.load(open("MANIFEST.json"))'
/usr/bin/g++ --version | head -1
python3 run.py C01 --build-only
