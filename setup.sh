#!/bin/bash
# Builds the symbolic engine from the committed sources.
set -e
cd "$(dirname "$0")"
make -C engine -j4
