#!/bin/bash
# Compiles demo.cpp with the library sources of the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -r "$T"' EXIT
pids=()
n=0
for f in src/xmss-alt/*.c src/qrl/*.cpp src/shasha/shasha.cpp "$D/demo.cpp"; do
    n=$((n + 1))
    g++ -std=c++17 -O1 -w -pthread -fno-access-control -I"$D/stub" -Isrc/api -Isrc -Ideps -Isrc/xmss-alt -Isrc/qrl -Isrc/shasha -Isrc/dilithium -Isrc/kyber \
        -x c++ -c "$f" -o "$T/$n.o" &
    pids+=($!)
done
for p in "${pids[@]}"; do wait "$p" || { echo "does not compile"; exit 2; }; done
g++ -pthread "$T"/*.o -o "$T/demo" || exit 2
timeout 250 "$T/demo"
