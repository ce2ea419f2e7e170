#!/bin/bash
# seedtest.sh [--check] ID...: planted change builds, passes the tests, demo fails with it and passes without it;
# with --check, also runs the property's quick check against it.
CHECK=; [ "$1" = --check ] && { CHECK=1; shift; }
V=$(cd "$(dirname "$0")/.." && pwd)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for id in "$@"; do
    d=$V/seeded/$id
    D=$(mktemp -d /tmp/seedtest.XXXXXX); cp -a "$d/." "$D/"; rm -f "$D/patch.diff" "$D/meta.json"
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    (cd /repo && timeout 300 bash "$D/demo.sh" >/tmp/demo-$id-clean.log 2>&1); a=$?
    git -C /repo apply "$d/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$D"; continue; }
    (cd /repo && timeout 300 bash "$D/demo.sh" >/tmp/demo-$id-bug.log 2>&1); b=$?
    t=$(bash "$V/tools/regress.sh" 2>&1 | tail -1)
    c=-
    if [ -n "$CHECK" ]; then
        low=$(echo "$prop" | tr A-Z a-z)
        s=$SECONDS
        (cd "$V" && VERIF_SEED=1 timeout 900 python3 checks/$low.py >/tmp/check-$id.log 2>&1); c="$? $(grep -c "^VIOLATION property=$prop " /tmp/check-$id.log) $((SECONDS-s))s"
    fi
    git -C /repo checkout -q -- .
    rm -rf "$D"
    echo "$id ($prop): demo clean=$a bug=$b | tests: $t | check: $c"
done
