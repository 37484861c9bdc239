#!/bin/bash
# mkseed.sh ID PROPERTY RANKS "needs" "what breaks" : take the diff in /tmp/sr as seed ID (demo.cc must already be in /verif/seeded/ID or is passed on stdin)
S=/verif/seeded/$1; mkdir -p $S; git -C /tmp/sr diff > $S/patch.diff; [ -s $S/patch.diff ] || { echo empty patch; exit 1; }
git -C /tmp/sr checkout -q -- .
[ -t 0 ] || cat > $S/demo.cc.new; [ -s $S/demo.cc.new ] && mv $S/demo.cc.new $S/demo.cc; [ -e $S/demo.cc.new ] && unlink $S/demo.cc.new
cat > $S/demo.sh <<X
#!/bin/bash
# Run in the repository after its build: builds demo.cc against the library and runs it on $3 process(es) in a scratch directory.
D=\$(cd "\$(dirname "\$0")" && pwd)
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1
W=/tmp/exseisdat_demo_$1
mkdir -p \$W || exit 2
trap 'rm -rf /tmp/exseisdat_demo_$1' EXIT
mpicxx -std=gnu++14 -O1 -include cassert -include cmath -include cstddef -include cstring -include limits -Iinclude "\$D/demo.cc" _build/libexseisdat.a -o \$W/demo || exit 2
cd \$W || exit 2
timeout 120 mpirun -n $3 --oversubscribe ./demo
X
python3 - "$@" <<'X'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[4],"what_it_breaks":sys.argv[5]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
X
cat $S/patch.diff
