#!/bin/bash
# run.sh PROPERTY [thorough]: rebuilds the harness from /repo's working tree and runs the check
cd "$(dirname "$0")" || exit 2
case "$1" in
  C16|C17|C18|C20|C23) bin=math;;
  C19) bin=sdk;;
  *) bin=core;;
esac
log=$(mktemp)
if ! tools/build.sh $bin >"$log" 2>&1; then tail -50 "$log"; rm -f "$log"; echo "build failed"; exit 2; fi
rm -f "$log"
VERIF_DIR="$PWD" exec harness/target/release/$bin "$1" "$2"
