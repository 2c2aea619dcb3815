#!/bin/bash
# check.sh <ID> [quick|thorough]   run the check of one property against /repo's working tree
# check.sh build                   build the model checker
# check.sh replay <file>           re-run the execution of a VIOLATION
cd "$(dirname "$0")" || exit 2
export MC_VERIF="$PWD" CARGO_TERM_COLOR=never CARGO_NET_OFFLINE=true
log=$(mktemp) || exit 2
if ! cargo build --offline --manifest-path mc/Cargo.toml >"$log" 2>&1; then
  cat "$log"; rm -f "$log"
  echo "ERROR of the check, not a verdict: the model checker does not build against /repo"
  exit 2
fi
rm -f "$log"
case "$1" in
  build) exit 0 ;;
  replay) exec mc/target/debug/mc replay "$2" ;;
  *) exec mc/target/debug/mc check "$1" --tier "${2:-${VERIF_TIER:-quick}}" ;;
esac
