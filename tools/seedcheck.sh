#!/bin/bash
# seedcheck.sh <dir> [property [tier]]: run the check of a planted bug's property on a scratch copy of /repo with the patch
D=$(readlink -f "$1"); P=${2:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
W=$(mktemp -d /tmp/seedXXXXXX); cp -a /repo $W/repo; git -C $W/repo checkout -q -- . ; git -C $W/repo apply $D/patch.diff || exit 9
export W P; T=${3:-quick}; export T
unshare -Urm bash -c 'mount --bind $W/repo /repo; cd /verif; VERIF_SEED=1 VERIF_TIER=$T python3 check.py $P $T > $W/log 2>&1; echo "exit $?"'
grep -E '^VIOLATION|REPRODUCED|not repro|NOT-DEC' $W/log | cut -c1-300; [ -n "$VERBOSE" ] && cat $W/log; echo "== $(basename $D) $P done"
rm -rf "$W"
