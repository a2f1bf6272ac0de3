#!/bin/bash
# try_bugs.sh ID... : runs the quick check of its property (or of $PROPS) against each planted bug, in a mount namespace in which
# a patched copy stands in the place of /repo; /repo itself is not touched
for id in "$@"; do
  d=/verif/seeded/$id
  props=${PROPS:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  w=$(mktemp -d /tmp/try-repo.XXXXXX)
  cp -a /repo/. $w/ && git -C $w checkout -q -- . && git -C $w apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  for p in $props; do
    s=$SECONDS
    VERIF_SEED=1 VERIF_TIER=quick unshare -Urm bash -c "mount --bind $w /repo && exec timeout 900 ${CHECK:-/verif/check} $p quick" >/tmp/try.$id.$p 2>&1; rc=$?
    echo "$id $p rc=$rc $((SECONDS-s))s $(grep -m1 -o 'VIOLATION.*' /tmp/try.$id.$p | cut -c1-150)"
  done
  rm -rf "$w"
done
