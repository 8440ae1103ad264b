#!/bin/bash
# run tools/mutate.py over all modules in parallel: mutall.sh -r|-m
cd "$(dirname "$0")/.."
out=$(mktemp -d /tmp/mutall.XXXX)
mods="algebraic aliased axis computed constant datafile fundamental index interpolation iotools iterables measurable metadata metric.Conv metric numerical observed observer observing operational physical plasma reference spelling symbolic utilities variable eprem.Var eprem"
printf '%s\n' $mods | xargs -P 8 -I{} sh -c "timeout 1500 python3 tools/mutate.py $* goats.core.{} goats.{} goats.eprem.runtime.{} > $out/{} 2>&1"
cat $out/* | cut -c1-220
rm -rf "$out"
