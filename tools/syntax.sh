#!/bin/bash
# Compiles repository sources against the stand-ins: syntax.sh FILE...
for f in "$@"; do
  ( g++ -std=c++20 -w -fsyntax-only -I/verif/sim -I/verif/shim -I/repo -DMETADATA_COMPRESSION_DEFAULT=true /repo/$f > /tmp/syn.$$.$(basename $f).log 2>&1 && echo "ok   $f" || { echo "FAIL $f"; grep -E "error|required from here" /tmp/syn.$$.$(basename $f).log | head -${N:-6}; } ) &
  while [ $(jobs -r | wc -l) -ge 8 ]; do sleep 0.1; done
done
wait
rm -f /tmp/syn.$$.*
