#!/bin/bash
# Unpacks the vendored Hypothesis into /verif/.lib (also done lazily by ./run)
# and checks that the code under test can be imported.
set -e
cd "$(dirname "$0")"
./run --setup
