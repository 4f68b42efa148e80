#!/bin/bash
# Exit 0 on correct code. Run in /repo after the build.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d /tmp/demo-XXXXXX); trap 'rm -rf "$T"' EXIT
gcc -std=gnu11 -D_GNU_SOURCE -w -O1 -include "$R/config.h" -I"$R" -I"$R/src" -I"$R/src/lib" -include stdbool.h \
	-o "$T/brk" "$D/brk.c" -L"$R/src/lib/.libs" -lrrr -Wl,-rpath,"$R/src/lib/.libs" -lpthread -levent -ljemalloc || exit 99
cp "$D"/*.py "$T"; cd "$T" && timeout 120 python3 -B demo.py; rc=$?
pkill -P $$ brk; exit $rc
