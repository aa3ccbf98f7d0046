#!/bin/bash
# tools/soak.sh FIRST LAST ID...: run quick tiers under several seeds, print only what is not quiet.
a=$1; b=$2; shift 2; o=$(mktemp)
for id in "$@"; do /verif/run.sh $id >/dev/null 2>&1; for s in $(seq $a $b); do VERIF_SEED=$s /verif/harness/target/debug/${id,,} >$o 2>&1 || { echo "== $id seed $s"; cut -c1-500 $o | head -25; }; done; done
echo soaked "$@"
