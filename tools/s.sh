#!/bin/bash
# developer helper: s.sh PARAM [engine args]
P=$1; shift
LL=$(ls /verif/build/ir_harness/release/deps/*cgu.0.rcgu.ll)
RUST_BACKTRACE=0 /verif/engine/target/release/symx --ll $LL --out /tmp/e$P.jsonl --param $P --fnames /tmp/fn.txt "$@"
python3 /verif/tools/sum.py /tmp/e$P.jsonl $P
