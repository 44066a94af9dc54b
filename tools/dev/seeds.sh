cd /tmp/vt
for s in $@; do for p in $(seq -w 1 29); do r=$(./check P$p quick seed=$s 2>&1); l=$(echo "$r"|grep -v KNOWN | tail -1); case "$l" in HELD*) ;; *) echo "P$p seed=$s $l"; echo "$r" | grep -v KNOWN | cut -c1-1500;; esac; done; echo done seed $s; done
