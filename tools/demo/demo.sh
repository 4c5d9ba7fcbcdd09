#!/bin/bash
# Compiles the demonstration against /repo's build and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/queso_demo_build_XXXXXX)
trap 'rm -rf "$work"' EXIT
g++ -std=c++20 -O1 -w -fopenmp -I"$PWD" -I"$PWD/queso" -I"$PWD/external_libraries" -I"$here" "$here/demo.cpp" -L"$PWD/_build/lib" -lQuESo -Wl,-rpath,"$PWD/_build/lib" -o "$work/demo" || exit 99
cd "$work" && timeout 200 ./demo
