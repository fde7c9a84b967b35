#!/bin/bash
# Nothing is kept between runs: every check compiles its simulators from /repo's
# working tree. This only makes sure that the toolchain can do so.
set -e
cd "$(dirname "$0")"
mkdir -p build
g++ -std=c++17 -O2 -fno-pie -w -c sim/rt.cpp -o build/setup-rt.o
rm -f "$PWD/build/setup-rt.o"
python3 -c 'import json; [json.loads(l) for l in open("properties.jsonl")]; json.load(open("MANIFEST.json"))'
echo setup ok
