#!/bin/bash
# Builds demo.cpp against the library that build.sh made and runs it: exit 0 when the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd); T=$PWD/_build/tree; W=$(mktemp -d /tmp/demo.XXXXXX); trap 'find "$W" -delete' EXIT
g++ -std=c++17 -w -I"$T/src" -I"$D" "$D/demo.cpp" -L"$T" -lsqlparser -lpthread -Wl,-rpath,"$T" -o "$W/demo" || exit 3
timeout 60 "$W/demo"
