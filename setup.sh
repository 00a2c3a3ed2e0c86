#!/bin/bash
# Builds every check once, offline (each check rebuilds what it needs by itself).
. /verif/env.sh
build_bins --bins || exit 1
build_program || exit 1
echo "setup done"
