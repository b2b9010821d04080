#!/bin/sh
# builds the MIR extractor and runs it once on /repo's tree (checks re-run it whenever the tree changed)
set -e
cd "$(dirname "$0")"
python3 lib/extract.py all none
exec python3 -c 'import sys; sys.path[:0] = ["lib", "checks"]; import threads; threads.prebuild()'
