#!/bin/bash
# Builds demo.cpp with the objects of the test build and runs it in a scratch
# directory.  Exit 0: the property holds on this demonstration.
R=$PWD
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
OBJS=$(find "$R/_build/CMakeFiles/runTests.dir/src" -name '*.o')
g++ -std=c++14 -O1 -w -include cstdint -DTESTS -DDEBUG -I"$R/src" "$D/demo.cpp" \
    $OBJS -o "$W/demo" -pthread -ldl -ljpeg -lpng -ltiff || exit 3
cd "$W" && timeout 200 ./demo
