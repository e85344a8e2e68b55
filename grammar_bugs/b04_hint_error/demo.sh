#!/bin/bash
# Builds demo.cpp with the sources of the library under AddressSanitizer: exit 0 when nothing is reported and the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd); T=$PWD/_build/tree; W=$(mktemp -d /tmp/demo.XXXXXX); trap 'find "$W" -delete' EXIT
for f in $(find "$T/src" -name '*.cpp' | grep -v conflict_test); do g++ -std=c++17 -w -g -O1 -fsanitize=address,undefined -fno-sanitize=vptr -I"$T/src" -c "$f" -o "$W/$(echo "$f" | tr / _).o" & done; wait
g++ -std=c++17 -w -g -O1 -fsanitize=address,undefined -fno-sanitize=vptr -I"$T/src" -I"$D" "$D/demo.cpp" "$W"/*.o -lpthread -o "$W/demo" || exit 3
ASAN_OPTIONS=detect_leaks=1:halt_on_error=1 UBSAN_OPTIONS=halt_on_error=1 timeout 120 "$W/demo"
