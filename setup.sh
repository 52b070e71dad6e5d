#!/bin/bash
# Nothing to compile: check that the interpreter, the library and the monitors load.
set -eu
cd "$(dirname "$0")"
mkdir -p evidence replays
exec bash run.sh --selftest
