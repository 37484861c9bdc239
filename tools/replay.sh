#!/bin/bash
# replay.sh HARNESS [k=v ...] -- name=value...  : run the native build on given inputs (development aid)
cd /verif; h=$1; shift; P=(); while [ $# -gt 0 ] && [ "$1" != -- ]; do P+=("$1"); shift; done; shift
exe=$(python3 -c "
from vp import build
print(build.harness_native('$h'))"); f=$(mktemp); for x in "$@"; do echo "${x/=/ }" >> $f; done; cat $f
ASAN_OPTIONS=detect_leaks=0 $exe $f "${P[@]}"; echo "exit $?"; rm -f $f
