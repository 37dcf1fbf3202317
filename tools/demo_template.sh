#!/bin/bash
# builds the demonstration against the built library and runs it in a scratch directory
set -e
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O0 -w -I"$repo/src" -I"$repo/_build/src" -I"$repo/_build/src/pdfmm" -I/usr/include/freetype2 -I/usr/include/libxml2 \
  -DPDFMM_SHARED "$here/demo.cpp" -o "$tmp/demo" -L"$repo/_build/target" -lpdfmm -Wl,-rpath,"$repo/_build/target"
cd "$tmp"
timeout 120 ./demo
