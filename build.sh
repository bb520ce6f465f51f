#!/bin/bash
# Builds the exporter and the analyser into /verif/build/bin (only if their
# sources changed since the last build there).
set -e
here=$(cd "$(dirname "$0")" && pwd)
b=$here/build
mkdir -p "$b/bin" "$b/gocache"
stamp=$(cat "$here"/tool/exporter/export.cpp "$here"/tool/gcell/*.go "$here"/tool/gcell/go.mod "$0" | sha256sum)
if [ -f "$b/bin/stamp" ] && [ "$(cat "$b/bin/stamp")" = "$stamp" ]; then exit 0; fi
clang++ -O0 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include "$here/tool/exporter/export.cpp" -o "$b/bin/astexport" \
  -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM.so.18.1 -Wl,-rpath,/usr/lib/llvm-18/lib &
p=$!
export HOME=${HOME:-/root} GOCACHE=$b/gocache GOFLAGS=-mod=mod GOTOOLCHAIN=local GO111MODULE=on CGO_ENABLED=0
(cd "$here/tool/gcell" && go build -o "$b/bin/gcell" .)
wait $p
echo "$stamp" > "$b/bin/stamp"
