#!/bin/bash
# Builds the symbolic executor (and precompiles the models) under build/.
cd "$(dirname "$0")" && bash engine/build.sh "$PWD/build"
