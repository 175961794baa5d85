#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
P=/repo/_build/prefix
g++ -std=c++17 -O0 -g -pthread -I$P/include "$d/demo.cpp" -L$P/lib -Wl,-rpath,$P/lib -lhext -lgumbo -lboost_regex -o "$t/demo" || exit 3
timeout 120 "$t/demo"
