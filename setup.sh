#!/usr/bin/env bash
# Nothing to install: checks compile their harness from /repo's working tree on every run.
set -e
cd "$(dirname "$0")"
mkdir -p _work evidence
command -v clang++-18 >/dev/null || command -v clang++ >/dev/null
python3 -c 'import registry; print(len(registry.REGISTRY), "properties registered")'
