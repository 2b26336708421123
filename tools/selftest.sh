#!/bin/bash
# Run the self test of the engine: library and language cases, symbolic against native.
# usage: tools/selftest.sh [length]
cd "$(dirname "$0")/.." || exit 9
n=0 bad=0
for i in $(seq 0 98); do
	n=$((n + 1))
	out=$(GOSX_EXTRA=$PWD/selftest/std.go timeout 300 bin/gosx -entry T_One -set N=$i,L=${1:-2} -time 60 2>&1)
	if [ $? -ne 0 ] || grep -qE 'MISMATCH|unsupported|VIOLATION' <<<"$out"; then
		bad=$((bad + 1))
		echo "case $i: $(grep -E 'MISMATCH|unsupported|VIOLATION' <<<"$out" | head -1 | cut -c1-200)"
	fi
done
echo "$n cases, $bad with differences"
