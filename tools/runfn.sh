run () 
{ 
    for a in "$@";
    do
        h=${a%% *};
        echo "== $a";
        p="";
        for x in ${a#* };
        do
            p="$p --param $x";
        done;
        ( time timeout 300 tools/sxrun.sh $h --time 250 $p ) 2>&1 | grep -v "^$\|user\|sys" | tail -8 | cut -c1-300;
        python3 tools/show.py | cut -c1-900;
    done
}
