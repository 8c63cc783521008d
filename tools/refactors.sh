#!/bin/bash
# tools/refactors.sh [NAME...]: behaviour-preserving edits; every property must stay quiet.
cd "$(dirname "$0")/.."
w=$(mktemp -d /tmp/rfw.XXXXXX)
for f in ${*:-$(ls tools/refactors | sed "s/\.diff$//")}; do f=$(basename tools/refactors/$f*.diff .diff)
    rm -rf "$w/include" && cp -a /repo/include "$w/" && (cd "$w" && patch -p1 -s < /verif/tools/refactors/$f.diff) || echo "$f does not apply"
    echo "== $f"
    VERIF_REPO=$w python3 tools/allprops.py $SMALL
done
rm -rf "$w"
