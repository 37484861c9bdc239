# runp HARNESS "k=v k=v" ... : run several parameter sets in parallel and summarise each
runp () { local h=$1; shift; local i=0; tools/sxrun.sh $h --time 1 --param mode=999 >/dev/null 2>&1; for a in "$@"; do i=$((i+1)); ( rm -f /tmp/sx_$i.json; p=""; for x in $a; do p="$p --param $x"; done; s=$(date +%s); SXOUT=/tmp/sx_$i.json timeout ${T:-400} tools/sxrun.sh $h --time ${TT:-300} $O $p >/dev/null 2>&1; echo "[$a] $(( $(date +%s) - s ))s $(python3 tools/show.py /tmp/sx_$i.json | sed "s/'instructions.*'q_unknown/'q_unknown/; s/'q_cache.*'error_total/'error_total/" | cut -c1-${W:-420} | head -${L:-7})" ) & done; wait; }
