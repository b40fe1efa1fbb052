#!/bin/bash
# One-off preparation: compile the model checkers once to prove the toolchain works offline.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
(cd "$here/harness" && cargo build --release --offline) || exit 1
(cd "$here/sched" && RUSTFLAGS="--cfg symb_verif" cargo build --release --offline) || exit 1
build_python
