#!/bin/bash
# seedtry.sh ID : in /tmp/sr: demo on the unchanged tree, then with the patch: build, tests, demo.  Prints OK or what is wrong.
S=/verif/seeded/$1; cd /tmp/sr || exit 2; git checkout -q -- .; git clean -qfd -e _build
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1
make -C _build -j8 >_build/make.log 2>&1 || { echo "$1: base build fails"; exit 1; }
env -u OMPI_ALLOW_RUN_AS_ROOT -u OMPI_ALLOW_RUN_AS_ROOT_CONFIRM timeout 300 bash $S/demo.sh >/tmp/sr_demo0.log 2>&1; r0=$?
git apply $S/patch.diff || { echo "$1: patch does not apply"; exit 1; }
make -C _build -j8 >_build/make.log 2>&1 || { echo "$1: patched build fails"; tail -5 _build/make.log; git checkout -q -- .; exit 1; }
env -u OMPI_ALLOW_RUN_AS_ROOT -u OMPI_ALLOW_RUN_AS_ROOT_CONFIRM timeout 300 bash $S/demo.sh >/tmp/sr_demo1.log 2>&1; r1=$?
mkdir -p /tmp/sr/_build/results; (cd _build/test && python3 /opt/vp/run_tests.py /tmp/sr/_build/results/r.txt /tmp/sr/_build/results >/dev/null 2>&1)
f=$(grep -c '^FAIL' _build/results/r.txt); p=$(grep -c '^PASS' _build/results/r.txt); git checkout -q -- .
[ $r0 = 0 ] && [ $r1 != 0 ] && [ "$f" = 0 ] && echo "$1: OK (demo $r0/$r1, $p passed)" || { echo "$1: BAD demo $r0/$r1 tests $p/$f"; grep '^FAIL' _build/results/r.txt | head -5; tail -n 5 /tmp/sr_demo0.log; echo ---; tail -n 5 /tmp/sr_demo1.log; exit 1; }
