cd /tmp/w/seeds
for f in "$@"; do echo $f; done | xargs -P 4 -I{} sh -c 'python3 /tmp/w/seedtool.py /tmp/w/seeds/{}.py > /tmp/w/seeds/{}.log 2>&1'
for f in "$@"; do tail -8 $f.log | cut -c1-250; done
