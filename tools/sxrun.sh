#!/bin/bash
# sxrun.sh HARNESS [sx options]: run the executor by hand (development aid)
cd /verif; h=$1; shift
mapfile -t o < <(python3 -c "
from vp import build
print(build.engine()); print(build.harness_ir('$h'))")
exec ${o[0]} ${o[1]} --out ${SXOUT:-/tmp/sx.json} -v "$@"
