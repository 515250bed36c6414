#!/bin/bash
# developer helper: all.sh PROP [time] -- every case of a property
P=$1; T=${2:-40}
n=$(/verif/build/native_harness/debug/vh list $P | wc -l)
for i in $(seq 1 $n); do
  echo "=== P$P case $i"; timeout $((T+60)) bash /verif/tools/s.sh $((P+100*i)) --time $T --samples 4 2>&1 | grep -v -E "^  (fork|cover|assert)" | cut -c1-700
done
