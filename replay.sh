#!/bin/bash
# replay.sh <file>: execute a replay file again (exit 1: the violation is reproduced).
f=$(realpath "$1")
cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
v=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["case"]["variant"])' "$f") || exit 2
exec "target/$v/dst" replay "$f"
