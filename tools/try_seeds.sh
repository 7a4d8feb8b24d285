#!/bin/bash
# Apply each planted bug to /repo, run its property's quick check, undo. Usage: tools/try_seeds.sh [ID...]
cd /verif
for d in ${@:-$(ls seeded)}; do
    p=$(python3 -c "import json,sys;print(json.load(open('seeded/$d/meta.json'))['property'])")
    cmd=./run.sh; [ "$p" = C22 ] && cmd=./run_ffi.sh
    git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
    s=$(date +%s); out=$(timeout 900 $cmd $p quick 2>&1); rc=$?; e=$(date +%s)
    git -C /repo checkout -q -- .
    echo "$d $p rc=$rc $((e-s))s $(echo "$out" | grep -v '^VIOLATION' | tail -1 | cut -c1-230)"
done
