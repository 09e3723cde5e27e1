#!/bin/bash
# run with cwd /repo after the build: exit 0 if the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -O1 -w -I"$D" -include compat.hpp -DFMT_SHARED -Icppcore/include -isystem /usr/include/eigen3 \
    "$D/demo.cpp" _build/libcppcore.a -lfmt -lpthread -o "$T/demo" || exit 2
cd "$T" && timeout 120 ./demo
