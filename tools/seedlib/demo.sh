#!/bin/bash
# Builds the library from the current directory's sources together with demo.cpp and runs it: 0 = property holds in the demonstration.
set -e
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
F="-std=c++17 -w -O0 -pthread -DDRAMPOWER_TESTING -DDRAMPOWER_VERSION_STRING=\"6.0.0\" -Isrc/DRAMPower -Isrc/cli/lib -Isrc/cli/main -I$D/stub"
SRC=$(find src/DRAMPower -name '*.cpp')
[ -f "$D/srcs" ] && SRC="$SRC $(cat "$D/srcs")"
[ -f "$D/flags" ] && F="$F $(cat "$D/flags")"
export F W
printf '%s\n' $SRC "$D/demo.cpp" | xargs -P 8 -I{} sh -c 'g++ $F -c "{}" -o "$W/$(printf %s "{}" | tr / _).o"'
g++ "$W"/*.o -pthread $(cat "$D/flags" "$D/libs" 2>/dev/null) -o "$W/demo"
cd "$W" && REPO="$OLDPWD" $(cat "$D/runner" 2>/dev/null) ./demo
