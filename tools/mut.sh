#!/bin/bash
# mut.sh PROPERTY FILE SED-EXPRESSION...: tries a change in a scratch copy of /repo (development aid)
set -u
M=/tmp/mut; mkdir -p $M
if [ ! -d $M/repo/.git ]; then rm -rf /tmp/mut/repo; git clone -q ${SRC:-/repo} $M/repo; ln -sfn /usr/include/eigen3 $M/repo/libs/eigen3; fi
git -C $M/repo fetch -q ${SRC:-/repo} HEAD; git -C $M/repo checkout -qf FETCH_HEAD -- . ; git -C $M/repo reset -q --hard FETCH_HEAD
p=$1; f=$2; shift 2
for e in "$@"; do sed -i -E "$e" $M/repo/$f; done
git -C $M/repo diff --stat | tail -1
[ -n "${SHOW:-}" ] && git -C $M/repo diff | grep '^[+-]'
cd ${VERIFDIR:-/verif} && VP_REPO=$M/repo VP_BUILD=$M/build python3 check.py $p > $M/log 2>&1; rc=$?
echo "rc=$rc $(grep -E 'VIOLATION|held' $M/log | cut -c1-150)"
[ -n "${SHOW:-}" ] && grep -v '^\[vp\] \(model\|built\)' $M/log | cut -c1-500 | head -${SHOW}
exit 0
