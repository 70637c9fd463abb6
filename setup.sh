#!/bin/bash
set -e
cd "$(dirname "$0")"
mkdir -p out evidence
./build.sh hook
./build.sh bare
./build.sh asan
