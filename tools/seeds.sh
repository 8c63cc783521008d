#!/bin/bash
# tools/seeds.sh [all] [ID...]: applies each planted bug to /repo, runs the check of its
# property (with "all": every check), undoes it.
cd /verif
all=0; [ "$1" = all ] && { all=1; shift; }
ids=${*:-$(ls seeded)}
for id in $ids; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
    props=$p; [ $all = 1 ] && props=$(seq -f 'C%02g' 1 18)
    hit=""
    for q in $props; do
        out=$(python3 check.py $q 2>&1); rc=$?
        if [ $rc = 1 ]; then hit="$hit $q"; grep -q no-failing-input <<<"$out" && hit="$hit(nfi)"; fi
        [ $rc -gt 1 ] && hit="$hit $q:ERROR$rc"
        grep -q "^undecided" <<<"$out" && hit="$hit $q:undecided"
    done
    git -C /repo checkout -- .
    echo "$id [$p]:$hit"
done
