#!/bin/bash
# Creates /tmp/sr, a scratch clone of /repo with its own build (same flags), for trying planted bugs.
set -e
[ -d /tmp/sr ] || git clone -q /repo /tmp/sr
cd /tmp/sr && git fetch -q && git reset -q --hard origin/HEAD
inc="-include cassert -include cmath -include cstddef -include cstring -include limits"
cmake -S /tmp/sr -B /tmp/sr/_build -G "Unix Makefiles" -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_C_FLAGS=-Wno-error "-DCMAKE_CXX_FLAGS=-Wno-error $inc" -DEXSEISDAT_BUILD_UTILITIES=ON -DEXSEISDAT_BUILD_EXAMPLES=ON -DEXSEISDAT_BUILD_TESTS=ON -DEXSEISDAT_BUILD_DOCUMENTATION=OFF >/dev/null
make -C /tmp/sr/_build -j8 exseisdat genfiles >/dev/null 2>&1
[ -e /tmp/sr/_build/data.ok ] || { mkdir -p /tmp/sr/_build/test; cp -a --sparse=always /repo/_build/test/tmp /tmp/sr/_build/test/tmp; touch /tmp/sr/_build/data.ok; }
make -C /tmp/sr/_build -j8 >/tmp/sr/_build/make.log 2>&1
