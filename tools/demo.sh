#!/bin/bash
# run in /repo after the build: builds a small driver from the tree's objects and runs demo.py in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap '[ -n "$W" ] && rm -rf "$W"' EXIT
mk=makefile; [ -f /opt/vp/gstore.mk ] && mk=/opt/vp/gstore.mk
L=$(make -n -B -f $mk march= CC=gcc "CXX=g++ -std=c++11" bin/gbuild 2>/dev/null | grep -- '-o bin/gbuild' | tail -1)
objs=$(echo "$L" | tr ' ' '\n' | grep '\.o$' | grep -v '/gbuild\.o$')
libs=$(echo "$L" | tr ' ' '\n' | grep -E '^-(l|L|pthread|fopenmp)')
g++ -std=c++11 -O1 -w -pthread -fopenmp -I. -I_build/shim/inc -Itools/antlr4-cpp-runtime-4/runtime/src -Itools/log4cplus/include -Itools/zlib-1.3/include \
    -o "$W/drv" "$here/drv.cpp" $objs $libs -ldl || { echo "driver did not build"; exit 2; }
mkdir "$W/w"
PYTHONPATH="$here" timeout 200 python3 -B "$here/demo.py" "$W/drv" "$W/w"
