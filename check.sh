#!/bin/bash
# check.sh <property> [--tier thorough] ...: rebuild from /repo's current tree, then decide the property.
cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
exec target/debug/dst check "$@" --debug "$PWD/target/debug/dst" --release "$PWD/target/release/dst" --dir "$PWD"
