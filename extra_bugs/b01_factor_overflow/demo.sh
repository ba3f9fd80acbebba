#!/bin/bash
# builds demo.cpp against the headers of the current directory and runs it
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)"
trap 'rm -rf "$out"' EXIT
clang++-18 -std=c++20 -O1 -DNDEBUG -w -I. -Iinc -I/usr/include/eigen3 "$here/demo.cpp" -o "$out/demo" -lnlopt -ltbb
cd "$out" && timeout 120 ./demo
