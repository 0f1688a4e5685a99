#!/bin/bash
# usage: check.sh <ID> [--replay <file|key>] [--all]   (VERIF_TIER=quick|thorough)
# Builds the check's binary against /repo's working tree and runs it.
. /verif/bin/env.sh
id=$1; shift
bin=$(echo "$id" | tr 'A-Z' 'a-z')
dir=/verif/mc; bins="--bin $bin"
for d in sys nn; do [ -f /verif/$d/src/bin/$bin.rs ] && dir=/verif/$d; done
# the programs that play the other side of the plugin protocol
case $bin in c15|c16|c20|c22) bins="$bins --bin peer --bin srv --bin plug";; esac
cd $dir || exit 3
if ! cargo build --offline --quiet $bins >/verif/target/$bin.log 2>&1; then
  cat /verif/target/$bin.log >&2; echo "build failed" >&2; exit 3
fi
exec /verif/target/debug/$bin "$@" 2> >(grep -v "Kernel name cache exceeded" >&2)
