#!/bin/sh
# Compiles the code under test with edge instrumentation: every basic-block edge calls the simulator.
name=
prev=
for a in "$@"; do
  [ "$prev" = --crate-name ] && name=$a
  prev=$a
done
case $name in
  mbqc_scheduling|scoped_threadpool|dst|simcli)
    exec "$@" --cfg mbqc_sim -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$@" ;;
esac
