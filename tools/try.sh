#!/bin/bash
# try.sh PATCH|revert:COMMIT id... : run checks against a scratch copy of /repo with a patch applied (or a commit reverted)
p=$1; shift
d=$(mktemp -d /tmp/nnxtry.XXXXXX)
cp -a /repo/. "$d/"
if [[ $p == revert:* ]]; then git -C "$d" show "${p#revert:}" | git -C "$d" apply -R || exit 3; else git -C "$d" apply "$p" || exit 3; fi
cd "$(dirname "$0")/.."
rc=0
for i in "$@"; do
  NNX_REPO=$d VERIF_TIER=${TIER:-quick} VERIF_SEED=${SEED:-1} bin/check "$i" > "/tmp/try_$i.$$" 2>&1; r=$?
  echo "$i rc=$r $(grep -c '^VIOLATION' /tmp/try_$i.$$) violations; $(grep -m1 -A1 '^VIOLATION' /tmp/try_$i.$$ | tail -1 | cut -c1-160)"
  [ $r = 2 ] && tail -5 "/tmp/try_$i.$$"
done
rm -rf "$d"
