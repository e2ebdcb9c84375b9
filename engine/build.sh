#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build).
set -e
D="$(cd "$(dirname "$0")" && pwd)"; OUT="${1:-$D/../build}"; mkdir -p "$OUT"
H=$(cat "$D"/*.cpp "$D"/*.h "$D"/build.sh | sha256sum | cut -c1-16)
if [ -x "$OUT/symex" ] && [ "$(cat "$OUT/symex.hash" 2>/dev/null)" = "$H" ]; then exit 0; fi
CF="$(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//; s/-std=c++17//; s/-DNDEBUG//') -std=c++17 -fexceptions -O2 -w"
T=$(mktemp -d)
g++ -std=c++17 -O2 -w -c "$D/expr.cpp" -o "$T/expr.o" & p1=$!
g++ -std=c++17 -O2 -w -c "$D/solver.cpp" -o "$T/solver.o" & p2=$!
g++ $CF -c "$D/exec.cpp" -o "$T/exec.o" & p3=$!
wait $p1; wait $p2; wait $p3
g++ "$T"/*.o -o "$OUT/symex.new" $(llvm-config-18 --ldflags) -lLLVM-18 -lz3 -lpthread
mv "$OUT/symex.new" "$OUT/symex"; echo "$H" > "$OUT/symex.hash"; rm -rf "$T"
