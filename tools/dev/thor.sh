cd /tmp/vt
for p in P23 P22 P29 P26 P28 P25 P17 P13 P12 P05 P01 P02 P03 P04 P06 P07 P08 P09 P10 P11 P14 P15 P16 P18 P19 P20 P21 P24 P27; do
  OCBMON_BUDGET=150 nice -n 5 ./check $p thorough seed=$((RANDOM)) > /tmp/w/thor_$p.log 2>&1; echo "$p rc=$? $(tail -1 /tmp/w/thor_$p.log | cut -c1-160)" >> /tmp/w/thor.sum
done; echo DONE >> /tmp/w/thor.sum
