#!/bin/sh
# Sanity check of the toolchain; every check builds what it needs by itself.
set -e
cd "$(dirname "$0")"
command -v g++ python3 >/dev/null
mkdir -p build out evidence
g++ -std=c++17 -fsyntax-only -Iengine engine/main.cpp
echo "toolchain ready"
