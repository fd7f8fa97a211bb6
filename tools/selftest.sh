#!/bin/bash
# The runtime's memory models against litmus tests: which final states are seen under TSO and under --wmm=1.
set -e
V=$(cd "$(dirname "$0")/.." && pwd); D=$(mktemp -d)
g++ -std=c++20 -O2 -w -c $V/harness/vrt.cpp -o $D/vrt.o
g++ -std=c++20 -O1 -w -fsanitize=thread -c $V/harness/self/litmus.cpp -o $D/l.o
g++ $D/l.o $D/vrt.o -ldl -o $D/l
# name, a register outcome, allowed under tso, allowed under wmm
cat > $D/t <<T
sb_sc 0,0 no no
sb_ra 0,0 yes yes
sb_scst 0,0 no yes
sbx_ra 0,0 no yes
sbx_sc 0,0 no no
sbf_2 0,0 no no
sbf_1 0,0 yes yes
mp_ra 1,0 no no
mp_rlx 1,0 no yes
mp_rlx2 1,0 no yes
corr 2,1 no no
corr 1,0 no no
iriw_sc 1,0,1,0 no no
iriw_ra 1,0,1,0 no yes
wrc_ra 1,1,0 no no
wrc_rlx 1,1,0 no yes
rseq 2,0 no no
T
bad=0
cut -d' ' -f1 $D/t | uniq > $D/p
for m in 0 2; do
  $D/l --progs=$D/p --out=$D/o$m --wmm=$m --pb=3 --dfs=20000 --rnd=3000 --time=10 --races=0
done
while read n o t w; do
  r="\"e\":\"$n\",\"r\":\"${o//,/ }"
  for m in 0 2; do
    [ $m = 0 ] && want=$t || want=$w
    grep -q "$r[\" ]" $D/o$m && got=yes || got=no
    [ $got = $want ] || { echo "selftest: $n $o wmm=$m: seen $got, expected $want"; bad=1; }
  done
done < $D/t
rm -rf "${D:?}"
[ $bad = 0 ] && echo "selftest: ok"
exit $bad
