#!/bin/bash
# Builds the small program beside this file against the repository in the current directory and runs it
# in a scratch directory: exit 0 when the property holds on the case it exercises.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; B=$R/_build/source
T=$(mktemp -d) || exit 2
trap 'find "$T" -delete' EXIT
g++ -std=gnu++17 -O1 -w -include cstdint -I/opt/vp/deps/rapidjson-shim -I"$R/source" -I/opt/vp/deps/pugixml/src \
  "$D/demo.cpp" -o "$T/demo" -Wl,--start-group $(find "$B" -name '*.a' | sort) -Wl,--end-group || exit 2
cd "$T" && timeout 100 ./demo
