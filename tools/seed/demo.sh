#!/bin/bash
# Run with cwd = the repository, after it is built: 0 if the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
g++ -std=c++17 -g -DCRG_BUILD_STATIC -Iinclude -Itest -I"$here" "$here/demo.cpp" -o "$out/demo" _build/libTestCommon.a _build/libRenderGraph.a || exit 0
cd "$out" && timeout 60 ./demo
