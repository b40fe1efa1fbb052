#!/bin/bash
# usage: check.sh <property id> [--tier thorough] [--only <substring of a case>]
# Builds the model checker against /repo's working tree and explores the property's space.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
export MC_VERIF_DIR="$here"
id="$1"; shift
case "$id" in
C18 | C19) crate=sched bin=mcsched; export RUSTFLAGS="--cfg symb_verif" ;;
*) crate=harness bin=mc ;;
esac
cd "$here/$crate" || exit 2
log=$(mktemp)
if ! cargo build --release --offline >"$log" 2>&1; then
  tail -60 "$log"; echo "$id: harness does not build against /repo"; exit 2
fi
if [ "$id" = C23 ] && ! build_python >"$log" 2>&1; then
  tail -60 "$log"; echo "$id: the Python module does not build from /repo"; exit 2
fi
/bin/rm -f "$log"
ulimit -v 26000000
exec ./target/release/$bin "$id" "$@"
