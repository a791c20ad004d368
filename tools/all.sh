#!/bin/bash
# run every check (tier $1, default quick) one after another and print a summary
cd "$(dirname "$0")/.."
for f in checks/c[0-9]*.py; do
  i=$(basename $f .py | tr c C)
  s=$(date +%s); timeout ${LIMIT:-900} ./run.sh $i ${1:-quick} > /tmp/all.$i.out 2>&1; rc=$?; e=$(date +%s)
  echo "$i rc=$rc $((e-s))s $(grep -E 'VIOLATION|KNOWN' /tmp/all.$i.out | head -3 | cut -c1-150 | tr '\n' '|')"
done
