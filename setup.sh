#!/bin/bash
# Builds the harness and the contracts' wasm files (every check refreshes both from the current
# trees; this only saves the checks the first build).
set -e
cd "$(dirname "$0")"
exec python3 -m phx.build
