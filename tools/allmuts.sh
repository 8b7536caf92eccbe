#!/bin/bash
# Runs every mutant file with a copy of the checker; prints what is not as expected.
cp /verif/bin/check /tmp/check_all
cd /verif
for f in tools/muts/*.py; do
  echo "== $(basename $f)"; CHECK=/tmp/check_all python3 tools/mut.py $f 2>&1 | grep -v "^ok"
done
echo DONE
