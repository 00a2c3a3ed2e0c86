#!/bin/bash
# usage: check.sh <property id>     rebuilds the harness against /repo's working tree and runs one check
# exit 0: held on everything explored; 1 with a VIOLATION line: broken; other: the check could not run
. /verif/env.sh
id=${1:?property id}
bin=$(echo "$id" | tr 'A-Z' 'a-z')
build_bins --bin "$bin" || { echo "$id: the harness does not build against /repo"; exit 4; }
if [ "$id" = C22 ] || [ "$id" = C11 ]; then
    build_program || { echo "$id: the program does not build"; exit 4; }
fi
mkdir -p "$VERIF_DIR/evidence" "$VERIF_DIR/replay"
exec "$BIN_DIR/$bin"
