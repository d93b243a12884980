#!/bin/bash
# runs checks from a copy of /verif's working tree, so that editing can go on; usage: regress.sh OUT [ids]
OUT=$1; shift
D=$(mktemp -d /tmp/regress-XXXX)
cp -a /verif/. $D/
cd $D
ids="$@"; [ -z "$ids" ] && ids=$(ls contracts | sed -n 's/^c\([0-9]*\)\.py$/C\1/p')
: > $OUT
for i in $ids; do
  t0=$(date +%s)
  python3-vt check.py $i > $D/log.$i 2>&1; rc=$?
  echo "$i rc=$rc $(($(date +%s)-t0))s $(grep -c '^VIOLATION' $D/log.$i) viol; $(tail -1 $D/log.$i | cut -c1-200)" >> $OUT
  [ $rc -ne 0 ] && grep VIOLATION $D/log.$i | cut -c1-300 >> $OUT
done
echo done >> $OUT
rm -rf "$D"
